------------------------------- MODULE Summary -------------------------------
(***************************************************************************)
(* The summary of a calculation (property C25): what it says about effects, *)
(* penalty, objective, buses and investments must be what the specification *)
(* derives from the behaviour the results describe.  The behaviour is       *)
(* followed step by step, as in Trace; its own violations are not judged    *)
(* here.                                                                    *)
(*                                                                          *)
(* A record holds the case cs, the trace tr, and the summary sm:            *)
(*   effs   per effect <<operation, investment, sum>> (NONE: not listed)    *)
(*   pen, obj, lb   penalty, objective without penalty, bound (same unit)   *)
(*   exc    the buses listed as having excess                               *)
(*   inv    per investment <<1 (invested), 0 (not) or NONE, listed size>>   *)
(*   odd    number of entries which stand for nothing in the case           *)
(*   asked  number of selected steps, 0: all                                *)
(***************************************************************************)
EXTENDS TraceRules, Json, IOUtils

Runs == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, t, st
vars == <<ci, t, st>>

Cs == Runs[ci].cs
Tr == Runs[ci].tr.tr
Sm == Runs[ci].tr.sm

Init ==
  /\ ci \in 1..Len(Runs)
  /\ t = 1
  /\ st = StartOf(Runs[ci].cs, Runs[ci].tr.tr)

Step ==
  /\ t <= Cs.T
  /\ st' = TraceStep(Cs, Tr, st, t).st
  /\ t' = t + 1
  /\ UNCHANGED ci

\* 1: excess beyond doubt, 0: none, 2: too little to judge
Excess(b) ==
  LET m == Max({Tr.ei[s][b] : s \in 1..Cs.T} \cup {Tr.eo[s][b] : s \in 1..Cs.T}) IN
  IF m >= 50 THEN 1 ELSE IF m <= 0 THEN 0 ELSE 2
\* 1: something is built, 0: nothing
Built(i) == IF Tr.sz[i] > 20 THEN 1 ELSE IF Tr.sz[i] < 5 THEN 0 ELSE 2

Three(e, iv) == <<st.op[e], iv[e], st.op[e] + iv[e]>>
SumBad ==
  LET iv  == IF "AMBIG" \in InvBad(Cs, Tr.sz) THEN Tr.iv ELSE InvTotals(Cs, Tr.sz)
      obj == st.op[Cs.obj] + iv[Cs.obj]
      tol == Tol(st.op[Cs.obj]) + Tol(iv[Cs.obj]) + Tol(st.pen) IN
  (UNION {IF Sm.effs[e] = <<>> THEN {"C25:effect_missing"}
          ELSE UNION {Rep(<<"C25:operation", "C25:investment", "C25:sum">>[k], Three(e, iv)[k], Sm.effs[e][k], Tol(st.op[e]) + Tol(iv[e])) : k \in 1..3}
          : e \in DOMAIN Cs.effs})
  \cup Rep("C25:penalty", st.pen, Sm.pen, Tol(st.pen))
  \cup Rep("C25:objective", obj, Sm.obj, tol)
  \cup (IF Given(Sm.lb) /\ Sm.lb > obj + tol THEN {"C25:bound_above_objective"} ELSE {})
  \cup (UNION {IF Excess(b) = 1 /\ b \notin Range(Sm.exc) THEN {"C25:excess_not_listed"}
               ELSE IF Excess(b) = 0 /\ b \in Range(Sm.exc) THEN {"C25:no_excess_but_listed"} ELSE {} : b \in 1..Len(Tr.ei[1])})
  \cup (UNION {IF ~Given(Sm.inv[i][1]) THEN {"C25:investment_missing"}
               ELSE (IF Built(i) # 2 /\ Built(i) # Sm.inv[i][1] THEN {"C25:invested_or_not"} ELSE {})
                    \cup Rep("C25:size", Tr.sz[i], Sm.inv[i][2], Tol(Tr.sz[i])) : i \in DOMAIN Tr.sz})
  \cup (IF Sm.odd # 0 THEN {"C25:unknown_entries"} ELSE {})
  \cup (IF Sm.asked \notin {0, Cs.T} THEN {"C25:number_of_steps"} ELSE {})
  \cup (IF Sm.asked = 0 /\ Runs[ci].tr.part = 1 THEN {"C25:selection_shown_as_all"} ELSE {})

Finish ==
  /\ t = Cs.T + 1
  /\ PrintT(ToJson([k |-> "T", ci |-> ci, bad |-> At(0, SumBad)]))
  /\ t' = t + 1
  /\ UNCHANGED <<ci, st>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
