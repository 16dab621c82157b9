------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* The configuration in effect (property C28): files loaded one after      *)
(* another, single values assigned, the level of the log changed.  What is *)
(* refused changes nothing.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Depth == 3
Default == [name |-> "flixOpt", big |-> "10000000", eps |-> "0.00001", bound |-> "100000", level |-> "INFO", file |-> "flixOpt.log"]
One == [name |-> "one", big |-> "500", eps |-> "0.001", bound |-> "7000", level |-> "DEBUG", file |-> "one.log"]
Two == [name |-> "two", big |-> "123456", eps |-> "0.25", bound |-> "99", level |-> "ERROR", file |-> "two.log"]
\* a file as it is written: values are texts of yaml, "-" for one that is left out
Files == {Default, One, Two,
  [One EXCEPT !.big = "'500'"], [One EXCEPT !.big = "500.5"], [One EXCEPT !.big = "-"],
  [Two EXCEPT !.eps = "1"], [Two EXCEPT !.eps = "-"], [Two EXCEPT !.bound = "x"],
  [One EXCEPT !.level = "LOUD"], [Two EXCEPT !.level = "-"], [One EXCEPT !.name = "12"], [Two EXCEPT !.file = "3"]}
Valid(f) == f \in {Default, One, Two}
Assigned == {<<"big", "700", 1>>, <<"big", "'a'", 0>>, <<"big", "1.5", 0>>, <<"eps", "0.5", 1>>, <<"eps", "2", 0>>, <<"bound", "31", 1>>, <<"bound", "0.1", 0>>}
Levels == {<<"debug", "DEBUG">>, <<"WARNING", "WARNING">>, <<"Critical", "CRITICAL">>, <<"loud", "">>}

VARIABLES now, lvl, hist
vars == <<now, lvl, hist>>
Init == now = Default /\ lvl = "INFO" /\ hist = <<>>
Note(act, what, ok) == hist' = Append(hist, [act |-> act, what |-> what, ok |-> ok, now |-> now', lvl |-> lvl'])
Load(f) ==
  /\ now' = IF Valid(f) THEN f ELSE now
  /\ lvl' = IF Valid(f) THEN f.level ELSE lvl
  /\ Note("load", f, Valid(f))
NoFile == UNCHANGED <<now, lvl>> /\ Note("nofile", "", FALSE)
Standard == now' = Default /\ lvl' = Default.level /\ Note("standard", "", TRUE)
Assign(a) ==
  /\ now' = IF a[3] = 0 THEN now ELSE CASE a[1] = "big" -> [now EXCEPT !.big = a[2]] [] a[1] = "eps" -> [now EXCEPT !.eps = a[2]] [] a[1] = "bound" -> [now EXCEPT !.bound = a[2]]
  /\ UNCHANGED lvl
  /\ Note("assign", a, a[3] = 1)
Level(l) ==
  /\ lvl' = IF l[2] = "" THEN lvl ELSE l[2]
  /\ UNCHANGED now
  /\ Note("level", l[1], l[2] # "")
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E f \in Files : Load(f)
     \/ NoFile \/ Standard
     \/ \E a \in Assigned : Assign(a)
     \/ \E l \in Levels : Level(l)
  /\ Len(hist') = Depth => PrintT(ToJson([k |-> "B", steps |-> hist']))
Spec == Init /\ [][Next]_vars

Whole == now.name \in {"flixOpt", "one", "two"} /\ lvl \in {"DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}
RefusedChangesNothing == [][hist'[Len(hist')].ok \/ (now' = now /\ lvl' = lvl)]_vars
=============================================================================
