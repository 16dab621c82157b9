-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded results (code -> specification).                  *)
(*                                                                          *)
(* A trace is what flixOpt reported for one calculation: decided sizes,     *)
(* initial contents, and per step the rates, statuses, excess, contents and *)
(* effects, plus the totals.  Every step of a trace must be a step of       *)
(* EnergySystem, and everything reported must be what the specification     *)
(* derives (TraceRules).  The verdict is total: each trace yields one       *)
(* record with the clauses it violates (none: accepted); validation goes on *)
(* after a violation, from the reported storage contents.                   *)
(***************************************************************************)
EXTENDS TraceRules, Json, IOUtils

Traces == JsonDeserialize(IOEnv.CASES)   \* sequence of [cs |-> case, tr |-> trace]

VARIABLES ci, t, st, bad
vars == <<ci, t, st, bad>>

Cs == Traces[ci].cs
Tr == Traces[ci].tr

Init ==
  /\ ci \in 1..Len(Traces)
  /\ t = 1
  /\ st = StartOf(Traces[ci].cs, Traces[ci].tr)
  /\ bad = At(0, StartBad(Traces[ci].cs, Traces[ci].tr))

\* one time step of the trace
Step ==
  /\ t <= Cs.T
  /\ LET r == TraceStep(Cs, Tr, st, t) IN bad' = bad \cup At(t, r.bad) /\ st' = r.st
  /\ t' = t + 1
  /\ UNCHANGED ci

Finish ==
  /\ t = Cs.T + 1
  /\ bad' = bad \cup At(t, EndBad(Cs, Tr, st))
  /\ PrintT(ToJson([k |-> "T", ci |-> ci, bad |-> bad']))
  /\ t' = t + 1
  /\ UNCHANGED <<ci, st>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
