------------------------------- MODULE Figures -------------------------------
(***************************************************************************)
(* Figures of tables of time series (property C26), drawn column by column.*)
(* A case: mode, tab[c][t] the values (millionths), eps: values closer to   *)
(* zero than this are not shown in stacked areas.                           *)
(*                                                                         *)
(* Every column is drawn exactly once: as a line, as bars which stack up    *)
(* (positive parts upwards, negative ones downwards), or as an area which   *)
(* is stacked on those of the same sign; a column with both signs cannot be *)
(* stacked and is a dashed line.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, up, down, drawn
vars == <<ci, up, down, drawn>>
C == Cases[ci]
Rows == DOMAIN C.tab[1]

Init ==
  /\ ci \in DOMAIN Cases
  /\ up = [t \in DOMAIN Cases[ci].tab[1] |-> 0]
  /\ down = up
  /\ drawn = <<>>

Col == C.tab[Len(drawn) + 1]
Pos(x) == IF x > 0 THEN x ELSE 0
Neg(x) == IF x < 0 THEN x ELSE 0
Shown(x) == IF C.mode = "area" /\ x > -C.eps /\ x < C.eps THEN 0 ELSE x
Y == [t \in Rows |-> Shown(Col[t])]
\* which areas it may be stacked on
Groups == (IF \A t \in Rows : Y[t] >= 0 THEN {"pos"} ELSE {}) \cup (IF \A t \in Rows : Y[t] <= 0 THEN {"neg"} ELSE {})

Draw ==
  /\ Len(drawn) < Len(C.tab)
  /\ drawn' = Append(drawn, [y |-> Y, kind |-> IF C.mode # "area" THEN {C.mode} ELSE IF Groups = {} THEN {"dash"} ELSE Groups,
                             pos |-> [t \in Rows |-> Pos(Y[t])], posfrom |-> up, neg |-> [t \in Rows |-> Neg(Y[t])], negfrom |-> down])
  /\ up' = [t \in Rows |-> up[t] + Pos(Y[t])]
  /\ down' = [t \in Rows |-> down[t] + Neg(Y[t])]
  /\ UNCHANGED ci

Finish ==
  /\ Len(drawn) = Len(C.tab)
  /\ PrintT(ToJson([k |-> "F", ci |-> ci, drawn |-> drawn]))
  /\ drawn' = Append(drawn, [y |-> <<>>])
  /\ UNCHANGED <<ci, up, down>>

Next == Draw \/ Finish
Spec == Init /\ [][Next]_vars

\* the stacks never overlap: what is above zero is drawn upwards, what is below downwards
Signs == \A t \in Rows : up[t] >= 0 /\ down[t] <= 0
=============================================================================
