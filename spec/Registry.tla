------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Registration of elements in a flow system (property C22).                *)
(*                                                                          *)
(* A case is a universe of objects: buses [label], flows [label, bus, dir   *)
(* (1: output of its component, into the bus; 0: input), rate, effs: seq of *)
(* [e (0: standard), v]], components [label, flows: seq of flow ids] and    *)
(* effects [label, std, obj], and els: what is added, one at a time, in     *)
(* any order and possibly more than once.  Labels may collide.              *)
(*                                                                          *)
(* An addition is accepted iff the system with it has unique labels, no     *)
(* object twice and at most one standard and one objective effect;          *)
(* otherwise it is rejected and nothing changes.  A calculation sees        *)
(* exactly the accepted elements.  All sequences of additions and           *)
(* calculations up to a depth are explored.                                 *)
(***************************************************************************)
EXTENDS FixedPoint, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, comps, effs, hist
vars == <<ci, comps, effs, hist>>
Case == Cases[ci]
SumG(S, g) == SumOver(S, LAMBDA i : g[i])

FlowsOf(C) == UNION {Range(Case.comps[c].flows) : c \in C}
Full(c, f) == Case.comps[c].label \o "__" \o Case.flows[f].label
BusesOf(C) == {Case.flows[f].bus : f \in FlowsOf(C)}

\* every element of a system with its label
Entries(C, E) ==
   {<<"component", c, Case.comps[c].label>> : c \in C}
   \cup UNION {{<<"flow", <<c, f>>, Full(c, f)>> : f \in Range(Case.comps[c].flows)} : c \in C}
   \cup {<<"bus", b, Case.buses[b].label>> : b \in BusesOf(C)}
   \cup {<<"effect", e, Case.effs[e].label>> : e \in E}
UniqueLabels(C, E) == \A x, y \in Entries(C, E) : x[3] = y[3] => x = y
\* a flow belongs to one component, once
OwnFlows(C) == /\ \A c \in C : Cardinality(Range(Case.comps[c].flows)) = Len(Case.comps[c].flows)
               /\ \A c, d \in C : c # d => Range(Case.comps[c].flows) \cap Range(Case.comps[d].flows) = {}
OneEach(E) == Cardinality({e \in E : Case.effs[e].std = 1}) <= 1 /\ Cardinality({e \in E : Case.effs[e].obj = 1}) <= 1
Sound(C, E) == UniqueLabels(C, E) /\ OwnFlows(C) /\ OneEach(E)

\* what a calculation with the registered elements gives (rates are fixed)
StdOf(E) == {e \in E : Case.effs[e].std = 1}
ObjOf(E) == {e \in E : Case.effs[e].obj = 1}
Solvable(C, E) ==
   /\ ObjOf(E) # {}

   /\ \A f \in FlowsOf(C) : \A k \in DOMAIN Case.flows[f].effs :
        LET e == Case.flows[f].effs[k].e IN IF e = 0 THEN StdOf(E) # {} ELSE e \in E
Net(C, b) == SumG({f \in FlowsOf(C) : Case.flows[f].bus = b}, [f \in DOMAIN Case.flows |-> IF Case.flows[f].dir = 1 THEN Case.flows[f].rate ELSE -Case.flows[f].rate])
EffOf(C, E, e) == SumG(FlowsOf(C), [f \in DOMAIN Case.flows |->
     SumG(DOMAIN Case.flows[f].effs, [k \in DOMAIN Case.flows[f].effs |->
        IF Case.flows[f].effs[k].e = e \/ (Case.flows[f].effs[k].e = 0 /\ e \in StdOf(E)) THEN Case.flows[f].effs[k].v * Case.flows[f].rate ELSE 0])])
Outcome(C, E) == IF Solvable(C, E)
   THEN [ok |-> 1, net |-> [b \in DOMAIN Case.buses |-> IF b \in BusesOf(C) THEN Net(C, b) ELSE NONE],
         eff |-> [e \in DOMAIN Case.effs |-> IF e \in E THEN EffOf(C, E, e) ELSE NONE]]
   ELSE [ok |-> 0, net |-> <<>>, eff |-> <<>>]

Set(A, n) == [i \in 1..n |-> IF i \in A THEN 1 ELSE 0]
Note(op, ok, C, E) == Append(hist, [op |-> op, ok |-> ok, comps |-> Set(C, Len(Case.comps)), effs |-> Set(E, Len(Case.effs)), out |-> IF op = 0 THEN Outcome(C, E) ELSE [ok |-> 0, net |-> <<>>, eff |-> <<>>]])
Emit == IF Len(hist') = Case.depth THEN PrintT(ToJson([ci |-> ci, hist |-> Append(hist', [op |-> 0, ok |-> 1, comps |-> Set(comps', Len(Case.comps)), effs |-> Set(effs', Len(Case.effs)), out |-> Outcome(comps', effs')])])) ELSE TRUE

Init == ci \in 1..Len(Cases) /\ comps = {} /\ effs = {} /\ hist = <<>>
Try(k, C, E) == /\ IF Sound(C, E) /\ <<C, E>> # <<comps, effs>>
                   THEN comps' = C /\ effs' = E /\ hist' = Note(k, 1, C, E)
                   ELSE UNCHANGED <<comps, effs>> /\ hist' = Note(k, 0, comps, effs)
                /\ Emit /\ UNCHANGED ci
Add(k) == LET x == Case.els[k] IN IF x.k = "component" THEN Try(k, comps \cup {x.i}, effs) ELSE Try(k, comps, effs \cup {x.i})
Calculate == hist' = Note(0, 1, comps, effs) /\ UNCHANGED <<ci, comps, effs>> /\ Emit
Next == Len(hist) < Case.depth /\ ((\E k \in DOMAIN Case.els : Add(k)) \/ (Len(hist) > 0 /\ hist[Len(hist)].op # 0 /\ Calculate))
Spec == Init /\ [][Next]_vars

(* the property *)
AlwaysSound == Sound(comps, effs)
\* what was accepted once stays
NothingLost == \A i \in DOMAIN hist : hist[i].op # 0 /\ hist[i].ok = 1 =>
   LET x == Case.els[hist[i].op] IN IF x.k = "component" THEN x.i \in comps ELSE x.i \in effs
RejectedLeavesAll == \A i \in 2..Len(hist) : hist[i].ok = 0 => hist[i].comps = hist[i - 1].comps /\ hist[i].effs = hist[i - 1].effs
AcceptedOnce == \A i, j \in DOMAIN hist : i # j /\ hist[i].op = hist[j].op /\ hist[i].op # 0 => ~(hist[i].ok = 1 /\ hist[j].ok = 1)
=============================================================================
