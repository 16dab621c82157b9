------------------------------- MODULE Stamps -------------------------------
(***************************************************************************)
(* The time axis made from a start, an interval, and a number of steps or  *)
(* an end (property C17): a clock advancing by the interval.  Times are    *)
(* seconds since the start.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Units == [s |-> 1, m |-> 60, h |-> 3600, D |-> 86400, W |-> 604800]
\* an interval as it is written, and its length (0: it can't be meant)
Counts == {<<"", 1>>, <<"1", 1>>, <<"2", 2>>, <<"15", 15>>, <<"07", 7>>, <<"1.5", 0>>, <<"-1", 0>>, <<"x", 0>>}
Freqs == {[text |-> c[1] \o u, len |-> c[2] * Units[u]] : c \in Counts, u \in DOMAIN Units}
\* how long it goes on: so many steps, or up to an end (in halves of the interval, or of an hour)
Goals == {[by |-> "steps", n |-> n] : n \in {1, 2, 3, 7}} \cup {[by |-> "end", n |-> n] : n \in {1, 2, 3, 4, 9}} \cup {[by |-> "both", n |-> n] : n \in {3, 4}} \cup {[by |-> "none", n |-> 0]}
Starts == {"2020-02-28", "2021-12-31T23", "2021-12-31 23:45", "2024-02-29T00:00:30"}

VARIABLES start, freq, goal, axis, done
vars == <<start, freq, goal, axis, done>>
Can == freq.len > 0 /\ goal.by # "none"
\* the end, from the start on
End == (goal.n * freq.len) \div 2
Init == start \in Starts /\ freq \in Freqs /\ goal \in Goals /\ axis = <<>> /\ done = FALSE
\* an end which isn't a whole second isn't stated
Stated == goal.by \in {"end", "both"} => (goal.n * freq.len) % 2 = 0
Time == Len(axis) * freq.len
More == IF goal.by = "steps" THEN Len(axis) < goal.n ELSE Time < End
Tick == ~done /\ Can /\ Stated /\ More /\ axis' = Append(axis, Time) /\ UNCHANGED <<start, freq, goal, done>>
Finish ==
  /\ ~done /\ Stated /\ ~(Can /\ More)
  /\ done' = TRUE
  /\ PrintT(ToJson([k |-> "T", start |-> start, freq |-> freq.text, goal |-> goal, end |-> End, ok |-> Can, axis |-> axis]))
  /\ UNCHANGED <<start, freq, goal, axis>>
Next == Tick \/ Finish
Spec == Init /\ [][Next]_vars

Even == \A k \in 1..Len(axis) : axis[k] = (k - 1) * freq.len
Within == goal.by \in {"end", "both"} => \A k \in 1..Len(axis) : axis[k] < End
=============================================================================
