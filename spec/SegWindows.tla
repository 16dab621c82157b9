------------------------------ MODULE SegWindows ------------------------------
(***************************************************************************)
(* The windows of a segmented calculation over L selected steps with        *)
(* segments of S steps and an overlap of O steps: window k starts after the *)
(* k-1 segments before it, contains its segment and the overlap, and never  *)
(* goes beyond the end.  A single remaining step belongs to the window      *)
(* before it.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

NrOfWindows(L, S) == IF L % S = 0 THEN L \div S ELSE IF L % S = 1 THEN L \div S ELSE L \div S + 1
First(k, S) == (k - 1) * S + 1
Last(k, L, S, O) == IF k = NrOfWindows(L, S) \/ First(k, S) + S + O - 1 > L THEN L ELSE First(k, S) + S + O - 1
Window(k, L, S, O) == [i \in 1..(Last(k, L, S, O) - First(k, S) + 1) |-> First(k, S) + i - 1]
\* the steps of window k which are part of the combined results
Kept(k, L, S) == IF k = NrOfWindows(L, S) THEN L - First(k, S) + 1 ELSE S
=============================================================================
