------------------------------ MODULE AggTrace ------------------------------
(***************************************************************************)
(* Validation of the recorded results of aggregated calculations: a trace   *)
(* (see Trace) of the system on the data used, with the steps of periods of *)
(* one cluster equated (AggPeriods; cs.agg is the aggregation).             *)
(***************************************************************************)
EXTENDS TraceRules, AggPeriods, Json, IOUtils

Traces == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, t, st, bad
vars == <<ci, t, st, bad>>
Cs == Traces[ci].cs
Tr == Traces[ci].tr

\* starting and stopping are only compared from the second step of a period on
Level(b, s) == IF b.k = "flow" THEN Tr.onf[s][b.i] ELSE Tr.onc[s][b.i]
Rates(s) == Tr.x[s]
Content(q, s) == IF s = 1 THEN Tr.c0[q] ELSE Tr.c[s - 1][q]
Duration(i, s) == <<Tr.run[s][i], Tr.idle[s][i]>>

Init ==
  /\ ci \in 1..Len(Traces)
  /\ t = 1
  /\ st = StartOf(Traces[ci].cs, Traces[ci].tr)
  /\ bad = At(0, StartBad(Traces[ci].cs, Traces[ci].tr))
Step ==
  /\ t <= Cs.T
  /\ LET r == TraceStep(Cs, Tr, st, t) IN bad' = bad \cup At(t, r.bad) /\ st' = r.st
  /\ t' = t + 1
  /\ UNCHANGED ci
Finish ==
  /\ t = Cs.T + 1
  /\ bad' = bad \cup At(t, EndBadWith(Cs, Tr, st, AggPenalty(Cs.agg, Cs.T, Level)))
                \cup At(t, AggBad(Cs, Cs.agg, Level, Rates, Content, Duration, HI))
  /\ PrintT(ToJson([k |-> "T", ci |-> ci, bad |-> bad']))
  /\ t' = t + 1
  /\ UNCHANGED <<ci, st>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
