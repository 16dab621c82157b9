------------------------------- MODULE HeatMap -------------------------------
(***************************************************************************)
(* Heat maps of time series (property C26).                                *)
(*                                                                         *)
(* A calendar walks through the bins (minutes, quarters of an hour, hours, *)
(* days or weeks) from the one of the first value to the one of the last   *)
(* one.  Every bin shows the mean of the values in it, or nothing, or (if  *)
(* filling is asked for) what the bin before or after shows.  The bin's    *)
(* place is determined by the calendar: the column by the period it lies   *)
(* in, the row by its position within the period.  Weeks begin on Monday   *)
(* and belong to the year of their Sunday.                                 *)
(*                                                                         *)
(* A case: start [y, mo, d, h, mi, wd (1 Monday .. 7), doy, wk], at[i] the *)
(* minutes from the start to value i (ascending), v[i] the values, per and *)
(* st the format, fill.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, now, passed, cells
vars == <<ci, now, passed, cells>>
C == Cases[ci]

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, mo) == IF mo = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31

NextDay(x) ==
  LET wd == (x.wd % 7) + 1
      newmonth == x.d = Days(x.y, x.mo)
      newyear  == newmonth /\ x.mo = 12
      wk == IF newyear THEN (IF wd = 1 THEN 1 ELSE 0) ELSE IF wd = 1 THEN x.wk + 1 ELSE x.wk IN
  [y |-> IF newyear THEN x.y + 1 ELSE x.y, mo |-> IF newyear THEN 1 ELSE IF newmonth THEN x.mo + 1 ELSE x.mo,
   d |-> IF newmonth THEN 1 ELSE x.d + 1, h |-> 0, mi |-> 0, wd |-> wd, doy |-> IF newyear THEN 1 ELSE x.doy + 1, wk |-> wk]
NextHour(x) == IF x.h = 23 THEN NextDay(x) ELSE [x EXCEPT !.h = @ + 1, !.mi = 0]
Width == CASE C.st = "min" -> 1 [] C.st = "15min" -> 15 [] C.st = "h" -> 60 [] C.st = "D" -> 1440 [] C.st = "W" -> 10080
RECURSIVE Later(_, _)
Later(x, n) == IF n = 0 THEN x ELSE Later(NextDay(x), n - 1)
After(x) == CASE C.st = "min"   -> IF x.mi = 59 THEN NextHour(x) ELSE [x EXCEPT !.mi = @ + 1]
              [] C.st = "15min" -> IF x.mi >= 45 THEN NextHour(x) ELSE [x EXCEPT !.mi = @ + 15]
              [] C.st = "h"     -> NextHour(x)
              [] C.st = "D"     -> NextDay(x)
              [] C.st = "W"     -> Later(x, 7)
\* the day which stands for a bin: of a week its Sunday
Label(x) == IF C.st = "W" THEN Later(x, 7 - x.wd) ELSE x

Period(x) == CASE C.per = "YS" -> <<x.y>> [] C.per = "MS" -> <<x.y, x.mo>> [] C.per = "W" -> <<x.y, x.wk>>
               [] C.per = "D" -> <<x.y, x.mo, x.d>> [] C.per = "h" -> <<x.y, x.mo, x.d, x.h>>
Within(x) == CASE C.per = "YS" /\ C.st = "W" -> <<x.wk>> [] C.per = "YS" /\ C.st = "D" -> <<x.doy>> [] C.per = "YS" /\ C.st = "h" -> <<x.doy, x.h>>
               [] C.per = "MS" /\ C.st = "D" -> <<x.d>> [] C.per = "MS" /\ C.st = "h" -> <<x.d, x.h>>
               [] C.per = "W" /\ C.st = "D" -> <<x.wd>> [] C.per = "W" /\ C.st = "h" -> <<x.wd, x.h>>
               [] C.per = "D" /\ C.st = "h" -> <<x.h>> [] C.per = "D" /\ C.st = "15min" -> <<x.h, x.mi>>
               [] C.per = "h" -> <<x.mi>>

Hits == {i \in DOMAIN C.at : C.at[i] >= passed /\ C.at[i] < passed + Width}
Sum(S) == FoldLeft(LAMBDA a, i : a + C.v[i], 0, SetToSeq(S))

Init == ci \in DOMAIN Cases /\ now = Cases[ci].start /\ passed = -Cases[ci].before /\ cells = <<>>

Walk ==
  /\ passed <= C.at[Len(C.at)]
  /\ cells' = Append(cells, [p |-> Period(Label(now)), s |-> Within(Label(now)), sum |-> Sum(Hits), n |-> Cardinality(Hits)])
  /\ now' = After(now)
  /\ passed' = passed + Width
  /\ UNCHANGED ci

\* what bin i shows: <<sum, number of values>>
RECURSIVE Shows(_)
Shows(i) == IF cells[i].n > 0 THEN <<cells[i].sum, cells[i].n>>
            ELSE IF C.fill = "ffill" /\ i > 1 THEN Shows(i - 1)
            ELSE IF C.fill = "bfill" /\ i < Len(cells) THEN Shows(i + 1) ELSE <<0, 0>>

Less(a, b) == \E k \in DOMAIN a : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
Sorted(S) == SetToSortSeq(S, Less)
Finish ==
  /\ passed > C.at[Len(C.at)]
  /\ passed # 10000000
  /\ LET cols == Sorted({cells[i].p : i \in DOMAIN cells})
         rows == Sorted({cells[i].s : i \in DOMAIN cells})
         place(r, c) == {i \in DOMAIN cells : cells[i].p = c /\ cells[i].s = r} IN
     PrintT(ToJson([k |-> "H", ci |-> ci, cols |-> cols, rows |-> rows,
       m |-> [r \in DOMAIN rows |-> [c \in DOMAIN cols |-> LET S == place(rows[r], cols[c]) IN IF S = {} THEN <<0, 0>> ELSE Shows(CHOOSE i \in S : TRUE)]]]))
  /\ passed' = 10000000
  /\ UNCHANGED <<ci, now, cells>>

Next == Walk \/ Finish
Spec == Init /\ [][Next]_vars

\* no two bins at the same place, and every value in exactly one of them
OnePlace == passed # 10000000 \/ \A i, j \in DOMAIN cells : (cells[i].p = cells[j].p /\ cells[i].s = cells[j].s) => i = j
AllShown == passed # 10000000 \/ FoldLeft(LAMBDA a, x : a + x.n, 0, cells) = Len(C.at)
=============================================================================
