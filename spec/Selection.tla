------------------------------ MODULE Selection ------------------------------
(***************************************************************************)
(* The cheapest selection of units (property C15 for problems whose        *)
(* optimum needs a search): unit by unit, taken or not; what counts is the *)
(* rate reached so far (up to the demand) and the least cost of it.        *)
(* A case: units <<rate, cost>>, need (demand to be reached).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
NO == 1000000
VARIABLES ci, i, best
vars == <<ci, i, best>>
C == Cases[ci]
Min(a, b) == IF a < b THEN a ELSE b

Init == ci \in DOMAIN Cases /\ i = 0 /\ best = [r \in 0..Cases[ci].need |-> IF r = 0 THEN 0 ELSE NO]
\* rates from which taking the unit reaches r
From(r, s) == IF r < C.need THEN (IF r >= s THEN {r - s} ELSE {}) ELSE (IF r > s THEN r - s ELSE 0)..r
Cheapest(S) == CHOOSE m \in S : \A x \in S : m <= x
Unit ==
  /\ i < Len(C.units)
  /\ LET s == C.units[i + 1][1]
         k == C.units[i + 1][2]
     IN best' = [r \in 0..C.need |-> Cheapest({best[r]} \cup {IF best[x] = NO THEN NO ELSE best[x] + k : x \in From(r, s)})]
  /\ i' = i + 1
  /\ UNCHANGED ci
Done ==
  /\ i = Len(C.units)
  /\ PrintT(ToJson([k |-> "S", ci |-> ci, cost |-> best[C.need]]))
  /\ i' = i + 1
  /\ UNCHANGED <<ci, best>>
Next == Unit \/ Done
Spec == Init /\ [][Next]_vars

\* more units never make a demand dearer than without them; costs are not negative here
Sane == \A r \in 0..C.need : best[r] >= 0
=============================================================================
