------------------------------ MODULE Segmented ------------------------------
(***************************************************************************)
(* Segmented calculations (property C18): windows solved one after the      *)
(* other.                                                                   *)
(*                                                                          *)
(*   state   the window being solved, its time step and the state of        *)
(*           EnergySystem in it; what is handed over to the next window:    *)
(*           storage contents and flow rates after the segment              *)
(*   step    a time step of the window (TraceRules); at its end the hand-   *)
(*           over to the next window, or the end of the calculation; a      *)
(*           window may fail, which ends the calculation                    *)
(*                                                                          *)
(* A run records: L, S, O; per window the steps it used, its case without   *)
(* start values (start values of window 1 are the user's), its result tr    *)
(* and the start values reported; every array of the combined results with  *)
(* its parts; the start values of all elements before and after.            *)
(***************************************************************************)
EXTENDS TraceRules, SegWindows, Json, IOUtils

Runs == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, k, t, hand, st, bad, ph
vars == <<ci, k, t, hand, st, bad, ph>>
R == Runs[ci]
N == Len(R.wins)

\* the case of window j when h is handed over to it
CaseOf(r, j, h) == IF j = 1 THEN r.wins[1].cs
  ELSE [r.wins[j].cs EXCEPT !.stors = [s \in DOMAIN @ |-> [@[s] EXCEPT !.init = h.c[s], !.cyc = 0]],
                            !.flows = [f \in DOMAIN @ |-> [@[f] EXCEPT !.prev = <<h.x[f]>>]]]
Cs == CaseOf(R, k, hand)
Tr == R.wins[k].tr

WindowBad(r, j) ==
  (IF r.wins[j].ix = Window(j, r.L, r.S, r.O) THEN {} ELSE {"C18:steps_of_window"})
Begin(r, j, h) == StartBad(CaseOf(r, j, h), r.wins[j].tr) \cup WindowBad(r, j)

\* statuses of the step before a window are not judged where a rate is almost zero
\* (rates below the resolution of the numbers here are recorded as faint)
Faint(w, x) == w.faint = 1 \/ \E f \in DOMAIN x : Abs(x[f]) > 0 /\ Abs(x[f]) <= ONEPS

\* the arrays of the combined results
Expect(a, r) == FoldLeft(LAMBDA u, v : u \o v, <<>>,
   [j \in 1..Len(r.wins) |-> IF j < Len(r.wins) THEN SubSeq(a.parts[j], 1, Kept(j, r.L, r.S)) ELSE a.parts[j]])
ArrayBad(a, r) ==
  LET e == Expect(a, r)
      n == IF a.points = 1 THEN r.L + 1 ELSE r.L IN
  IF Len(a.comb) # n \/ Len(e) # n THEN {"C18:combined_length_of_" \o a.name}
  ELSE IF \E i \in 1..n : Abs(a.comb[i] - e[i]) > 1 THEN {"C18:combined_values_of_" \o a.name} ELSE {}
EndOfRun(r) ==
  (IF r.ok = 1 THEN
     (IF Len(r.wins) = NrOfWindows(r.L, r.S) THEN {} ELSE {"C18:number_of_windows"})
     \cup UNION {ArrayBad(r.arrays[i], r) : i \in DOMAIN r.arrays}
   ELSE {})
  \cup (IF r.before = r.after THEN {} ELSE {"C18:start_values_not_restored"})

At3(j, s, clauses) == {<<j * 100 + s, c>> : c \in clauses \ {"AMBIG"}}
Done(b) == ph' = "done" /\ PrintT(ToJson([k |-> "T", ci |-> ci, bad |-> b]))

Init ==
  /\ ci \in 1..Len(Runs)
  /\ k = 1 /\ t = 1
  /\ hand = [c |-> <<>>, x |-> <<>>]
  /\ IF Len(Runs[ci].wins) > 0
     THEN /\ st = StartOf(Runs[ci].wins[1].cs, Runs[ci].wins[1].tr)
          /\ bad = At3(1, 0, Begin(Runs[ci], 1, hand))
     ELSE st = <<>> /\ bad = {}
  /\ ph = "run"

Step ==
  /\ ph = "run" /\ k <= N /\ t <= Cs.T
  /\ LET r == TraceStep(Cs, Tr, st, t) IN bad' = bad \cup At3(k, t, r.bad) /\ st' = r.st
  /\ t' = t + 1
  /\ UNCHANGED <<ci, k, hand, ph>>

\* window k is complete and another one follows
HandOver ==
  /\ ph = "run" /\ k < N /\ t = Cs.T + 1
  /\ Cs.T >= R.S
  /\ LET h  == [c |-> [s \in DOMAIN Cs.stors |-> Tr.c[R.S][s]], x |-> Tr.x[R.S]]
         rp == R.wins[k + 1].start
         b  == bad \cup At3(k, t, EndBad(Cs, Tr, st))
     IN /\ hand' = h
        /\ k' = k + 1
        /\ IF Faint(R.wins[k + 1], h.x) THEN bad' = b /\ Done(b \cup At3(k, t + 1, EndOfRun(R))) /\ UNCHANGED <<t, st>>
           ELSE /\ t' = 1
                /\ st' = StartOf(CaseOf(R, k + 1, h), R.wins[k + 1].tr)
                /\ bad' = b \cup At3(k + 1, 0, Begin(R, k + 1, h)
                            \cup (IF rp.x = h.x /\ rp.c = h.c THEN {} ELSE {"C18:reported_start_values"}))
                /\ ph' = ph
  /\ UNCHANGED ci

TooShort == /\ ph = "run" /\ k < N /\ t = Cs.T + 1 /\ Cs.T < R.S
            /\ bad' = bad \cup {<<k * 100, "C18:window_shorter_than_segment">>} /\ Done(bad') /\ UNCHANGED <<ci, k, t, hand, st>>
\* the last recorded window: the end of the calculation, or a failure of the next one
Finish ==
  /\ ph = "run" /\ k = N /\ t = Cs.T + 1
  /\ bad' = bad \cup At3(k, t, EndBad(Cs, Tr, st)) \cup At3(k, t + 1, EndOfRun(R))
  /\ Done(bad')
  /\ UNCHANGED <<ci, k, t, hand, st>>
NothingSolved ==
  /\ ph = "run" /\ N = 0
  /\ bad' = At3(0, 0, EndOfRun(R)) /\ Done(bad') /\ UNCHANGED <<ci, k, t, hand, st>>

Next == Step \/ HandOver \/ TooShort \/ Finish \/ NothingSolved
Spec == Init /\ [][Next]_vars
=============================================================================
