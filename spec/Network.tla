------------------------------- MODULE Network -------------------------------
(***************************************************************************)
(* The drawing of a flow system (property C26): component by component,    *)
(* every component and every bus it is connected to is one node, every flow *)
(* one arrow in the direction in which the energy flows.                   *)
(* A case: comps [label, flows [label, bus, in (1: into the component)]]    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, i, nodes, arrows
vars == <<ci, i, nodes, arrows>>
C == Cases[ci]

Init == ci \in DOMAIN Cases /\ i = 0 /\ nodes = {} /\ arrows = <<>>
Draw ==
  /\ i < Len(C)
  /\ i' = i + 1
  /\ LET c == C[i + 1] IN
     /\ nodes' = nodes \cup {<<"Component", c.label>>} \cup {<<"Bus", c.flows[k].bus>> : k \in DOMAIN c.flows}
     /\ arrows' = arrows \o [k \in DOMAIN c.flows |-> LET f == c.flows[k] IN
                              IF f.in = 1 THEN <<f.bus, c.label, f.label>> ELSE <<c.label, f.bus, f.label>>]
  /\ UNCHANGED ci
Finish ==
  /\ i = Len(C)
  /\ PrintT(ToJson([k |-> "N", ci |-> ci, nodes |-> SetToSeq(nodes), arrows |-> arrows]))
  /\ i' = i + 1
  /\ UNCHANGED <<ci, nodes, arrows>>
Next == Draw \/ Finish
Spec == Init /\ [][Next]_vars

\* every arrow connects a component with a bus
Ends == \A k \in DOMAIN arrows : LET a == arrows[k] IN
          (<<"Component", a[1]>> \in nodes /\ <<"Bus", a[2]>> \in nodes) \/ (<<"Bus", a[1]>> \in nodes /\ <<"Component", a[2]>> \in nodes)
=============================================================================
