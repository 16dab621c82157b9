----------------------------- MODULE Definition -----------------------------
(***************************************************************************)
(* What a description of a flow system says (property C27).  A reader goes *)
(* through the elements as they were stated and looks each one up in the   *)
(* description: every argument that was stated and is not its default is   *)
(* there with its value, nothing else is said, no element is invented.     *)
(* An element: [el, cls, args]; an argument: [a, v, def (1: its default),  *)
(* eff (1: said although not stated, an effective value)];                 *)
(* a value: [s (text), n (numbers: <<whole, millionths>>),                 *)
(* d (<<>> or the statistics of a long series)].                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, i, wrong
vars == <<ci, i, wrong>>
C == Cases[ci]
M == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x

Near(a, b, tol) == Abs(a[1] - b[1]) <= 2 /\ Abs((a[1] - b[1]) * M + a[2] - b[2]) <= tol
\* the numbers of a series: a single number stands for a constant series
Num(v, k) == IF Len(v.n) = 1 THEN v.n[1] ELSE v.n[k]
SameNumbers(x, y, tol) ==
  /\ (x.n = <<>>) = (y.n = <<>>)
  /\ Len(x.n) <= 1 \/ Len(y.n) <= 1 \/ Len(x.n) = Len(y.n)
  /\ \A k \in 1..(IF Len(x.n) > Len(y.n) THEN Len(x.n) ELSE Len(y.n)) : Near(Num(x, k), Num(y, k), tol)

(* the statistics of a long series of whole numbers, in hundredths: min, max, mean, median, len, centre of mass *)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
W(v) == [k \in DOMAIN v.n |-> v.n[k][1]]
Sorted(s) == SortSeq(s, <)
Statistics(v) ==
  LET s == W(v)
      n == Len(s)
      o == Sorted(s)
  IN  [min |-> o[1], max |-> o[n], len |-> n, sum |-> Sum(s),
       mid |-> o[(n + 1) \div 2] + o[n \div 2 + 1],
       pos |-> Sum([k \in 1..n |-> (k - 1) * s[k]])]
Described(v, d) ==
  LET t == Statistics(v) IN
  /\ d.min = 100 * t.min /\ d.max = 100 * t.max /\ d.len = t.len
  /\ Abs(d.mean * t.len - 100 * t.sum) <= t.len
  /\ Abs(2 * d.median - 100 * t.mid) <= 2
  /\ LET n == t.len
         var == n * Sum([k \in 1..n |-> W(v)[k] * W(v)[k]]) - t.sum * t.sum     \* variance times n squared
     IN  /\ d.std > 0 => (d.std - 1) * (d.std - 1) * n * n <= 10000 * var
         /\ 10000 * var <= (d.std + 1) * (d.std + 1) * n * n
  /\ t.sum # 0 => Abs(d.center * (t.len - 1) * t.sum - 100 * t.pos) <= (t.len - 1) * Abs(t.sum)

Same(x, y, tol) == x.s = y.s /\ IF y.d = <<>> THEN SameNumbers(x, y, tol) ELSE Described(x, y.d[1])

Of(els, name) == SelectSeq(els, LAMBDA e : e.el = name)
Arg(args, name) == SelectSeq(args, LAMBDA a : a.a = name)
Judge(e) ==
  LET f == Of(C.doc, e.el) IN
  IF Len(f) # 1 THEN <<[el |-> e.el, a |-> "", why |-> IF Len(f) = 0 THEN "missing" ELSE "twice"]>>
  ELSE LET said == f[1].args
           lost == SelectSeq(e.args, LAMBDA a : a.def = 0 /\ a.eff = 0 /\ Arg(said, a.a) = <<>>)
           other == SelectSeq(said, LAMBDA b : LET a == Arg(e.args, b.a) IN a # <<>> /\ ~Same(a[1].v, b.v, C.tol))
           new == SelectSeq(said, LAMBDA b : Arg(e.args, b.a) = <<>>)
           R(s, why) == [k \in DOMAIN s |-> [el |-> e.el, a |-> s[k].a, why |-> why]]
       IN (IF f[1].cls = e.cls THEN <<>> ELSE <<[el |-> e.el, a |-> "class", why |-> "differs"]>>)
          \o R(lost, "lost") \o R(other, "differs") \o R(new, "not stated")

Init == ci \in DOMAIN Cases /\ i = 0 /\ wrong = <<>>
Look ==
  /\ i < Len(C.stated)
  /\ i' = i + 1
  /\ wrong' = wrong \o Judge(C.stated[i + 1])
  /\ UNCHANGED ci
Invented == SelectSeq(C.doc, LAMBDA f : Of(C.stated, f.el) = <<>>)
Finish ==
  /\ i = Len(C.stated)
  /\ i' = i + 1
  /\ wrong' = wrong \o [k \in DOMAIN Invented |-> [el |-> Invented[k].el, a |-> "", why |-> "invented"]]
  /\ PrintT(ToJson([k |-> "D", ci |-> ci, wrong |-> wrong']))
  /\ UNCHANGED ci
Next == Look \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
