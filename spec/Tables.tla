------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Tables made from the saved results of a calculation (property C21).      *)
(*                                                                          *)
(* A case is what was saved: the flows [label, comp, bus, in (1 iff an      *)
(* input of its component), v: seq of rates], the buses [label, ein, eout:  *)
(* seq of excess or <<>>], the component labels, the T + 1 time stamps, and *)
(* the sets of options to ask for.  Amounts are in millionths.              *)
(* A request [label, fin, fout (-1, 1, 0: not at all), thr (-1: none),      *)
(* last] determines the table; each transition answers one request.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, asked
vars == <<ci, asked>>
C == Cases[ci]
T == C.T

Times(f, v) == [t \in DOMAIN v |-> f * v[t]]
Col(name, v) == [name |-> name, v |-> v]

\* an input of a component takes from its bus: it is an output of the bus
CompTable(c, fin, fout) ==
  LET ins == SelectSeq(C.flows, LAMBDA f : f.comp = c /\ f.in = 1)
      outs == SelectSeq(C.flows, LAMBDA f : f.comp = c /\ f.in = 0) IN
    (IF fin = 0 THEN <<>> ELSE [i \in DOMAIN ins |-> Col(ins[i].label, Times(fin, ins[i].v))])
    \o (IF fout = 0 THEN <<>> ELSE [i \in DOMAIN outs |-> Col(outs[i].label, Times(fout, outs[i].v))])
BusTable(b, fin, fout) ==
  LET ins == SelectSeq(C.flows, LAMBDA f : f.bus = b.label /\ f.in = 0)
      outs == SelectSeq(C.flows, LAMBDA f : f.bus = b.label /\ f.in = 1) IN
    (IF fin = 0 THEN <<>> ELSE [i \in DOMAIN ins |-> Col(ins[i].label, Times(fin, ins[i].v))]
                               \o (IF b.ein = <<>> THEN <<>> ELSE <<Col("Excess Input", Times(fin, b.ein))>>))
    \o (IF fout = 0 THEN <<>> ELSE [i \in DOMAIN outs |-> Col(outs[i].label, Times(fout, outs[i].v))]
                               \o (IF b.eout = <<>> THEN <<>> ELSE <<Col("Excess Output", Times(fout, b.eout))>>))
FlowTable(f) == <<Col("flow_rate", f.v)>>

Abs(x) == IF x < 0 THEN -x ELSE x
Largest(v) == Max({Abs(v[t]) : t \in DOMAIN v})
\* columns nowhere beyond the threshold are dropped; at the threshold both is right
Kept(tab, thr) == SelectSeq(tab, LAMBDA c : thr < 0 \/ Largest(c.v) > thr - 2)
Sure(c, thr) == IF thr < 0 \/ Largest(c.v) > thr + 2 THEN 1 ELSE 0
\* the last value also holds at the end of the last step
Rows(v, last) == IF last = 1 THEN Append(v, v[Len(v)]) ELSE v

Whole(label, fin, fout) ==
  IF \E i \in DOMAIN C.comps : C.comps[i] = label THEN CompTable(label, fin, fout)
  ELSE IF \E i \in DOMAIN C.buses : C.buses[i].label = label
  THEN BusTable(C.buses[CHOOSE i \in DOMAIN C.buses : C.buses[i].label = label], fin, fout)
  ELSE FlowTable(C.flows[CHOOSE i \in DOMAIN C.flows : C.flows[i].label = label])
Table(r) ==
  LET k == Kept(Whole(r.label, r.fin, r.fout), r.thr) IN
    [cols |-> [i \in DOMAIN k |-> [name |-> k[i].name, sure |-> Sure(k[i], r.thr), v |-> Rows(k[i].v, r.last)]],
     stamps |-> IF r.last = 1 THEN C.stamps ELSE SubSeq(C.stamps, 1, T)]

\* what enters a bus leaves it: the largest sum of its columns over the steps
SumAll(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Unbalance(b) == LET tab == BusTable(b, -1, 1) IN
  IF tab = <<>> THEN 0 ELSE Max({Abs(SumAll([i \in DOMAIN tab |-> tab[i].v[t]])) : t \in 1..T})

Off(label) == IF \E i \in DOMAIN C.buses : C.buses[i].label = label THEN Unbalance(C.buses[CHOOSE i \in DOMAIN C.buses : C.buses[i].label = label]) ELSE 0

Init == ci \in 1..Len(Cases) /\ asked = [label |-> "", fin |-> 0, fout |-> 0, thr |-> 0, last |-> 0]
Ask(r) ==
  /\ asked.label = ""
  /\ asked' = r /\ UNCHANGED ci
  /\ PrintT(ToJson([ci |-> ci, r |-> r, table |-> Table(r), off |-> Off(r.label)]))
Next == \E l \in Range(C.labels), fi \in Range(C.fins), fo \in Range(C.fouts), th \in Range(C.thrs), la \in {0, 1} :
          Ask([label |-> l, fin |-> fi, fout |-> fo, thr |-> th, last |-> la])
Spec == Init /\ [][Next]_vars

(* the property, on what the table of a request has to be *)
Answer == Table(asked)
RowsMatchStamps == asked.label # "" => \A i \in DOMAIN Answer.cols : Len(Answer.cols[i].v) = Len(Answer.stamps)
OnlyNegligibleDropped == asked.label # "" =>
  \A i \in DOMAIN Whole(asked.label, asked.fin, asked.fout) :
    LET c == Whole(asked.label, asked.fin, asked.fout)[i] IN
      (\A j \in DOMAIN Answer.cols : Answer.cols[j].name # c.name) => asked.thr >= 0 /\ \A t \in DOMAIN c.v : Abs(c.v[t]) <= asked.thr
\* (that a bus is balanced, off being negligible, is judged with the answers)
=============================================================================
