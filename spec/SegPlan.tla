------------------------------- MODULE SegPlan -------------------------------
(***************************************************************************)
(* All horizon, segment and overlap lengths up to a bound: the windows move *)
(* over the horizon one after the other; the selected steps are covered     *)
(* exactly once by the kept parts, and consecutive windows join.  Printed   *)
(* for the harness, which runs a segmented calculation for each.            *)
(***************************************************************************)
EXTENDS SegWindows, FiniteSets, TLC, Json, IOUtils

MaxL == atoi(IOEnv.MAXL)

VARIABLES L, S, O, k, done      \* done: kept steps so far, in order
vars == <<L, S, O, k, done>>

Init == /\ L \in 3..MaxL /\ S \in 3..MaxL /\ O \in 0..(MaxL - 3)
        /\ S + O <= L
        /\ k = 0 /\ done = <<>>
Move == /\ k < NrOfWindows(L, S)
        /\ k' = k + 1
        /\ done' = done \o SubSeq(Window(k + 1, L, S, O), 1, Kept(k + 1, L, S))
        /\ IF k' = NrOfWindows(L, S) THEN PrintT(ToJson([L |-> L, S |-> S, O |-> O, w |-> [j \in 1..k' |-> Window(j, L, S, O)]])) ELSE TRUE
        /\ UNCHANGED <<L, S, O>>
Spec == Init /\ [][Move]_vars

InOrderOnce == done = [i \in 1..Len(done) |-> i]
AllCovered == k = NrOfWindows(L, S) => Len(done) = L
\* a window contains at least what is kept of it, two steps or more, and the overlap as far as the horizon reaches
LongEnough == \A j \in 1..NrOfWindows(L, S) : LET n == Len(Window(j, L, S, O)) IN
   n >= 2 /\ n >= Kept(j, L, S) /\ (j < NrOfWindows(L, S) => n = Kept(j, L, S) + O \/ Last(j, L, S, O) = L)
=============================================================================
