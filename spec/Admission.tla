------------------------------ MODULE Admission ------------------------------
(***************************************************************************)
(* Which definitions are accepted (property C28).  A definition grows      *)
(* piece by piece; every definition reached that is complete is judged:    *)
(* admissible, or a contradiction that has to be refused.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Kinds == {IOEnv.KIND}
T == 4            \* time steps of the systems definitions are made for
VARIABLES kind, d, judged
vars == <<kind, d, judged>>
Range(s) == {s[x] : x \in DOMAIN s}

(* --- flow: its minimum and its maximum, scalar (one value) or in each of three steps --- *)
FlowEmpty == [lo |-> <<>>, hi |-> <<>>]
FlowGrow(x) ==
  IF Len(x.hi) = 0 /\ Len(x.lo) < 3
  THEN {[x EXCEPT !.lo = Append(@, v)] : v \in 0..2} \cup (IF Len(x.lo) = 1 THEN {[x EXCEPT !.hi = <<v>>] : v \in 0..2} ELSE {})
  ELSE IF Len(x.hi) < 3 THEN {[x EXCEPT !.hi = Append(@, v)] : v \in 0..2} ELSE {}
FlowWhole(x) == Len(x.lo) \in {1, 3} /\ Len(x.hi) \in {1, 3}
At(s, t) == IF Len(s) = 1 THEN s[1] ELSE s[t]
FlowOK(x) == \A t \in 1..3 : At(x.lo, t) <= At(x.hi, t)

(* --- series: time-dependent data growing value by value --- *)
Ends == {"relative_minimum_charge_state", "relative_maximum_charge_state"}          \* states at both ends of every step
Attributes == Ends \cup {"relative_minimum", "relative_maximum", "fixed_relative_profile", "effects_per_flow_hour", "effects_per_running_hour",
  "effects_per_switch_on", "conversion_factor", "relative_loss_per_hour", "eta_charge", "eta_discharge", "maximum_operation_per_hour",
  "minimum_operation_per_hour", "share_operation", "excess_penalty", "relative_losses", "absolute_losses", "segment"}
SeriesEmpty == [a |-> "", n |-> 0]
SeriesGrow(x) == IF x.a = "" THEN {[a |-> a, n |-> 2] : a \in Attributes} ELSE IF x.n < T + 3 THEN {[x EXCEPT !.n = @ + 1]} ELSE {}
SeriesWhole(x) == x.a # "" /\ ~(x.a \in Ends /\ x.n = T)
SeriesOK(x) == x.n = (IF x.a \in Ends THEN T + 1 ELSE T)

(* --- converter: equations over its flows; 0 stands for a flow of another component --- *)
ConverterEmpty == [n |-> <<0, 0>>, eqs |-> <<>>, segs |-> 0, free |-> 0]
ConverterGrow(x) ==
  IF x.n = <<0, 0>> THEN {[x EXCEPT !.n = <<a, b>>, !.segs = s, !.free = f] : a \in 1..2, b \in 1..2, s \in {0, 1}, f \in {0, 1}}
  ELSE IF Len(x.eqs) < x.n[1] + x.n[2] + 1 THEN {[x EXCEPT !.eqs = Append(@, e)] : e \in {{1, 2}, {2, x.n[1] + x.n[2]}, {1, 0}}} ELSE {}
ConverterWhole(x) == x.n # <<0, 0>>
ConverterOK(x) ==
  /\ (x.eqs # <<>>) # (x.segs = 1)
  /\ Len(x.eqs) < x.n[1] + x.n[2]
  /\ \A e \in Range(x.eqs) : 0 \notin e
  /\ x.segs = 1 => x.free = 0

(* --- transmission from A to B and, possibly, back --- *)
TransmissionEmpty == [in2 |-> "?", out2 |-> "?", inv |-> {}]
TransmissionGrow(x) ==
  IF x.in2 = "?" THEN {[x EXCEPT !.in2 = a, !.out2 = b] : a \in {"A", "B", "C"}, b \in {"A", "B", "C"}} \cup {[x EXCEPT !.in2 = "-", !.out2 = "-"]}
  ELSE {[x EXCEPT !.inv = @ \cup {f}] : f \in ({"in1", "out1"} \cup (IF x.in2 = "-" THEN {} ELSE {"in2", "out2"})) \ x.inv}
TransmissionWhole(x) == x.in2 # "?"
TransmissionOK(x) == x.in2 \in {"-", "B"} /\ x.out2 \in {"-", "A"} /\ x.inv \subseteq {"in1"}

(* --- what a storage starts with --- *)
StartEmpty == [v |-> "?"]
StartGrow(x) == IF x.v = "?" THEN {[v |-> w] : w \in {"none", "0", "3", "2.5", "lastValueOfSim", "lastvalueofsim", "firstValueOfSim", "full"}} ELSE {}
StartWhole(x) == x.v # "?"
StartOK(x) == x.v \in {"none", "0", "3", "2.5", "lastValueOfSim"}

(* --- time axis: from stamp to stamp --- *)
AxisEmpty == [steps |-> <<>>]
AxisGrow(x) == IF Len(x.steps) < 5 THEN {[steps |-> Append(x.steps, s)] : s \in {-1, 1, 2}} ELSE {}
AxisWhole(x) == Len(x.steps) >= 2
AxisOK(x) == -1 \notin Range(x.steps)

(* --- weight of a series in aggregation --- *)
WeightEmpty == [group |-> "?", weight |-> "?"]
WeightGrow(x) == IF x.group = "?" THEN {[group |-> g, weight |-> w] : g \in {"", "g"}, w \in {"", "0", "0.5", "1"}} ELSE {}
WeightWhole(x) == x.group # "?"
WeightOK(x) == x.group = "" \/ x.weight = ""

(* --- effects: which are added and which are used, and where --- *)
Places == {"flow_hour", "start", "running", "fix", "specific", "divest", "segments", "share_operation", "share_invest"}
EffectsEmpty == [places |-> {}, added |-> "?", standard |-> 1, objective |-> 1, none |-> 0]
EffectsGrow(x) ==
  IF x.added = "?" THEN {[x EXCEPT !.added = a, !.standard = s, !.objective = o, !.none = n] : a \in {"yes", "no"}, s \in {0, 1}, o \in {0, 1}, n \in {0, 1}}
  ELSE IF Cardinality(x.places) < 2 THEN {[x EXCEPT !.places = @ \cup {p}] : p \in Places \ x.places} ELSE {}
EffectsWhole(x) == x.added # "?"
\* none: an effect is meant without being named, the standard effect
EffectsOK(x) == (x.places # {} => x.added = "yes") /\ x.objective = 1 /\ (x.none = 1 => x.standard = 1)

(* --- aggregation: lengths of time steps in minutes, of a period in half hours --- *)
PeriodsEmpty == [step |-> 0, odd |-> 0, period |-> 0]
PeriodsGrow(x) == IF x.step = 0 THEN {[step |-> s, odd |-> o, period |-> p] : s \in {30, 60, 90, 120}, o \in {0, 1}, p \in {2, 3, 4, 6, 8}} ELSE {}
PeriodsWhole(x) == x.step # 0 /\ x.period * 30 >= 2 * x.step
PeriodsOK(x) == x.odd = 0 /\ (x.period * 30) % x.step = 0

Empty == [flow |-> FlowEmpty, series |-> SeriesEmpty, converter |-> ConverterEmpty, transmission |-> TransmissionEmpty, start |-> StartEmpty,
          axis |-> AxisEmpty, weight |-> WeightEmpty, effects |-> EffectsEmpty, periods |-> PeriodsEmpty]
Growth(k, x) == CASE k = "flow" -> FlowGrow(x) [] k = "series" -> SeriesGrow(x) [] k = "converter" -> ConverterGrow(x)
  [] k = "transmission" -> TransmissionGrow(x) [] k = "start" -> StartGrow(x) [] k = "axis" -> AxisGrow(x) [] k = "weight" -> WeightGrow(x)
  [] k = "effects" -> EffectsGrow(x) [] k = "periods" -> PeriodsGrow(x)
Whole(k, x) == CASE k = "flow" -> FlowWhole(x) [] k = "series" -> SeriesWhole(x) [] k = "converter" -> ConverterWhole(x)
  [] k = "transmission" -> TransmissionWhole(x) [] k = "start" -> StartWhole(x) [] k = "axis" -> AxisWhole(x) [] k = "weight" -> WeightWhole(x)
  [] k = "effects" -> EffectsWhole(x) [] k = "periods" -> PeriodsWhole(x)
Admissible(k, x) == CASE k = "flow" -> FlowOK(x) [] k = "series" -> SeriesOK(x) [] k = "converter" -> ConverterOK(x)
  [] k = "transmission" -> TransmissionOK(x) [] k = "start" -> StartOK(x) [] k = "axis" -> AxisOK(x) [] k = "weight" -> WeightOK(x)
  [] k = "effects" -> EffectsOK(x) [] k = "periods" -> PeriodsOK(x)

Init == kind \in Kinds /\ d = Empty[kind] /\ judged = FALSE
Grow == ~judged /\ d' \in Growth(kind, d) /\ UNCHANGED <<kind, judged>>
Judge ==
  /\ ~judged /\ Whole(kind, d)
  /\ judged' = TRUE
  /\ PrintT(ToJson([k |-> "A", kind |-> kind, d |-> d, ok |-> Admissible(kind, d)]))
  /\ UNCHANGED <<kind, d>>
Next == Grow \/ Judge
Spec == Init /\ [][Next]_vars

(* time once run backwards, an equation with a foreign flow, as many equations as flows: whatever is added, it stays a contradiction *)
Lasting == [][(kind = "axis" \/ (kind = "converter" /\ d.eqs # <<>> /\ d.segs = 0)) /\ Whole(kind, d) /\ ~Admissible(kind, d) => ~Admissible(kind, d')]_vars
Sane == judged => Whole(kind, d)
=============================================================================
