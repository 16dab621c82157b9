------------------------------ MODULE TimeSeries ------------------------------
(***************************************************************************)
(* Time-dependent data of a flow system (property C24).                     *)
(*                                                                          *)
(* A case gives series [data (one value: scalar), grp, w], selections of    *)
(* time steps (sequences of indices) and candidate aggregated data.  A      *)
(* calculation selects time steps for all series, may insert aggregated     *)
(* data for some of them, and the next one starts anew.  Every sequence of  *)
(* such operations up to depth n is explored; after each operation the      *)
(* values every series must yield are printed.                              *)
(***************************************************************************)
EXTENDS FixedPoint, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, sel, agg, hist
vars == <<ci, sel, agg, hist>>
Case == Cases[ci]
S == DOMAIN Case.series

Const(s) == \A i \in DOMAIN s : s[i] = s[1]
IsArray(s) == Len(Case.series[s].data) > 1 /\ ~Const(Case.series[s].data)
T == Case.T
Steps(j) == IF j = 0 THEN [i \in 1..T |-> i] ELSE Case.sels[j]
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]

\* the value of a series: one number per selected time step
Val(s, j, a) == [i \in 1..Len(Steps(j)) |-> IF a # <<>> THEN At(a, i) ELSE At(Case.series[s].data, Steps(j)[i])]
Values(sl, ag) == [s \in S |-> Val(s, sl[s], ag[s])]

\* weights in the aggregation: a group shares the weight 1; otherwise the stated weight (10^-3), or 1
Weight(s) == LET q == Case.series[s] IN
  IF q.grp > 0 THEN [n |-> 1, d |-> Cardinality({o \in S : IsArray(o) /\ Case.series[o].grp = q.grp})]
  ELSE [n |-> IF Given(q.w) THEN q.w ELSE 1000, d |-> 1000]

Init == /\ ci \in 1..Len(Cases)
        /\ sel = [s \in DOMAIN Cases[ci].series |-> 0]
        /\ agg = [s \in DOMAIN Cases[ci].series |-> <<>>]
        /\ hist = <<>>

Do(op, sl, ag) ==
  /\ sel' = sl /\ agg' = ag
  /\ hist' = Append(hist, [op |-> op, v |-> Values(sl, ag), arr |-> [s \in S |-> IF IsArray(s) THEN 1 ELSE 0]])
  /\ IF Len(hist') = Case.depth THEN PrintT(ToJson([ci |-> ci, hist |-> hist', w |-> [s \in S |-> Weight(s)]])) ELSE TRUE
  /\ UNCHANGED ci

\* a calculation starts: nothing is left of earlier ones
Reset == Do([k |-> "reset", s |-> 0, j |-> 0, a |-> 0], [s \in S |-> 0], [s \in S |-> <<>>])
\* selection for all series / for one of them; without aggregated data there is none any more
SelectAll(j) == Do([k |-> "selall", s |-> 0, j |-> j, a |-> 0], [s \in S |-> j], [s \in S |-> <<>>])
SelectOne(s, j) == Do([k |-> "sel", s |-> s, j |-> j, a |-> 0], [sel EXCEPT ![s] = j], [agg EXCEPT ![s] = <<>>])
SelectAgg(s, j, a) ==
  /\ j > 0 /\ Len(Case.aggs[a]) \in {1, Len(Steps(j))}
  /\ Do([k |-> "selagg", s |-> s, j |-> j, a |-> a], [sel EXCEPT ![s] = j], [agg EXCEPT ![s] = Case.aggs[a]])
\* insertion of aggregated data for the array series of a set, by label
Insert(a, b) ==   \* a for the first half, b for the second half of the series (0: none)
  /\ \A s \in S : LET x == IF s <= Len(Case.series) \div 2 THEN a ELSE b IN
        IF x = 0 THEN TRUE ELSE IF IsArray(s) THEN Len(Case.aggs[x]) = Len(Steps(sel[s])) ELSE TRUE
  /\ Do([k |-> "insert", s |-> 0, j |-> a, a |-> b], sel,
        [s \in S |-> LET x == IF s <= Len(Case.series) \div 2 THEN a ELSE b IN
                     IF x = 0 \/ ~IsArray(s) THEN agg[s] ELSE Case.aggs[x]])

Next == Len(hist) < Case.depth /\
  \/ Reset
  \/ \E j \in 0..Len(Case.sels) : SelectAll(j)
  \/ \E s \in Range(Case.single), j \in 0..Len(Case.sels) : SelectOne(s, j)
  \/ \E s \in Range(Case.single), j \in 1..Len(Case.sels), a \in DOMAIN Case.aggs : SelectAgg(s, j, a)
  \/ \E a, b \in 0..Len(Case.aggs) : (a > 0 \/ b > 0) /\ Insert(a, b)
Spec == Init /\ [][Next]_vars

(*------------- the property, stated over the history of operations --------*)
\* the last operation concerning series s which selects (0: none)
LastSel(s) == LET q == {i \in DOMAIN hist : hist[i].op.k \in {"reset", "selall"} \/ (hist[i].op.k \in {"sel", "selagg"} /\ hist[i].op.s = s)} IN
  IF q = {} THEN 0 ELSE Max(q)
Inserted(s, i) == hist[i].op.k = "insert" /\ IsArray(s) /\ (IF s <= Len(Case.series) \div 2 THEN hist[i].op.j ELSE hist[i].op.a) # 0
\* aggregated data is in use iff it was given with or after the last selection
AggregatedIffInserted == \A s \in S :
   (agg[s] # <<>>) <=> ((LastSel(s) > 0 /\ hist[LastSel(s)].op.k = "selagg") \/ \E i \in DOMAIN hist : i > LastSel(s) /\ Inserted(s, i))
\* otherwise the value is the user's data at the selected steps
UserData == \A s \in S : agg[s] = <<>> =>
   \A i \in 1..Len(Steps(sel[s])) : Val(s, sel[s], <<>>)[i] = At(Case.series[s].data, Steps(sel[s])[i])
SelectionIsLast == \A s \in S : sel[s] = (IF LastSel(s) = 0 THEN 0 ELSE hist[LastSel(s)].op.j)
=============================================================================
