------------------------------ MODULE MathModel ------------------------------
(***************************************************************************)
(* The layer between flixOpt's elements and the solver (property C23):      *)
(* variables, constraints built part by part, and the problem handed over.  *)
(*                                                                          *)
(* A case gives variables [n, bin, lb, ub, fx] (one value per index, NONE:  *)
(* not bounded / not fixed) and an alphabet of parts:                       *)
(*   [k |-> "S", v, f, ix, sum]   factors f times the indices ix of v       *)
(*   [k |-> "C", f]               constants f                               *)
(* mode "build": every sequence of up to nmax parts is added to one         *)
(*   constraint; which parts are accepted and the rows which result are     *)
(*   printed.                                                               *)
(* mode "solve": constraints cons (sequences of parts) and an objective are *)
(*   given; all points of the (integer) domain are visited and every        *)
(*   feasible one is printed with its objective.                            *)
(***************************************************************************)
EXTENDS FixedPoint, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, ph,
          seq,    \* parts offered so far
          acc,    \* which of them were accepted
          len,    \* number of rows so far
          rows,   \* per row: coefficient of each variable index
          con,    \* per row: constant
          pt      \* mode "solve": values of the first variable indices
vars == <<ci, ph, seq, acc, len, rows, con, pt>>

Case == Cases[ci]
Op(i) == Case.ops[i]

(* positions: all variable indices of the case in one sequence *)
RECURSIVE Off(_, _)
Off(c, v) == IF v = 1 THEN 0 ELSE Off(c, v - 1) + c.vars[v - 1].n
NPos(c) == Off(c, Len(c.vars)) + c.vars[Len(c.vars)].n
Pos(c, v, j) == Off(c, v) + j
VarOf(c, p) == CHOOSE v \in DOMAIN c.vars : Off(c, v) < p /\ p <= Off(c, v) + c.vars[v].n
IdxOf(c, p) == p - Off(c, VarOf(c, p))

(* how many rows a part has, and whether it is consistent in itself *)
Fits(o) == o.k = "C" \/ Len(o.f) = Len(o.ix) \/ Len(o.f) = 1 \/ Len(o.ix) = 1
Length(o) == IF o.k = "C" THEN Len(o.f) ELSE IF o.sum = 1 THEN 1 ELSE Max2(Len(o.f), Len(o.ix))
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]

(* coefficient of position p in row i of a part *)
Coef(c, o, i, p) ==
  IF o.k = "C" THEN 0
  ELSE IF o.sum = 1
       THEN SumSeq([k \in 1..Max2(Len(o.f), Len(o.ix)) |-> IF Pos(c, o.v, At(o.ix, k)) = p THEN At(o.f, k) ELSE 0])
       ELSE IF Pos(c, o.v, At(o.ix, i)) = p THEN At(o.f, i) ELSE 0
Const(o, i) == IF o.k = "C" THEN At(o.f, i) ELSE 0

Grow(s, n) == [i \in 1..n |-> At(s, i)]      \* a scalar constraint becomes n equal rows
Accepts(n, o) == Fits(o) /\ (n = 1 \/ Length(o) \in {1, n})

Init ==
  /\ ci \in 1..Len(Cases)
  /\ ph = Cases[ci].mode
  /\ seq = <<>> /\ acc = <<>> /\ len = 1
  /\ rows = <<[p \in 1..NPos(Cases[ci]) |-> 0]>> /\ con = <<0>>
  /\ pt = <<>>

(*------------------------------ building ---------------------------------*)
Add(i) ==
  LET o == Op(i)  n == Max2(len, Length(o)) IN
  /\ ph = "build" /\ Len(seq) < Case.nmax
  /\ seq' = Append(seq, i)
  /\ IF Accepts(len, o)
     THEN /\ acc' = Append(acc, 1) /\ len' = n
          /\ rows' = [r \in 1..n |-> [p \in 1..NPos(Case) |-> Grow(rows, n)[r][p] + Coef(Case, o, r, p)]]
          /\ con' = [r \in 1..n |-> Grow(con, n)[r] + Const(o, r)]
     ELSE /\ acc' = Append(acc, 0) /\ UNCHANGED <<len, rows, con>>
  /\ PrintT(ToJson([k |-> "B", ci |-> ci, seq |-> seq', acc |-> acc', rows |-> rows', con |-> con']))
  /\ UNCHANGED <<ci, ph, pt>>

(*------------------------------- solving ---------------------------------*)
Given1(s, j) == s # <<>> /\ Given(s[j])
Domain(p) ==
  LET v == Case.vars[VarOf(Case, p)]  j == IdxOf(Case, p) IN
  IF v.fx # <<>> THEN {v.fx[j]}
  ELSE IF v.bin = 1 THEN {x \in {0, 1} : (~Given(v.lb[j]) \/ x >= v.lb[j]) /\ (~Given(v.ub[j]) \/ x <= v.ub[j])}
  ELSE v.lb[j]..v.ub[j]
(* parts of a constraint of the case, all of them accepted by construction *)
RECURSIVE LenOf(_)
LenOf(ops) == IF ops = <<>> THEN 1 ELSE Max2(Length(Op(Head(ops))), LenOf(Tail(ops)))
Lhs(ops, i, x) == SumSeq([k \in DOMAIN ops |-> SumSeq([p \in 1..NPos(Case) |-> Coef(Case, Op(ops[k]), i, p) * x[p]])])
Rhs(ops, i) == SumSeq([k \in DOMAIN ops |-> Const(Op(ops[k]), i)])
Holds(q, x) == \A i \in 1..LenOf(q.ops) :
   IF q.eq = 1 THEN Lhs(q.ops, i, x) = Rhs(q.ops, i) ELSE Lhs(q.ops, i, x) <= Rhs(q.ops, i)

Pick ==
  /\ ph = "solve" /\ Len(pt) < NPos(Case)
  /\ \E x \in Domain(Len(pt) + 1) : pt' = Append(pt, x)
  /\ IF Len(pt') = NPos(Case) /\ \A q \in Range(Case.cons) : Holds(q, pt')
     THEN PrintT(ToJson([k |-> "P", ci |-> ci, x |-> pt', obj |-> Lhs(Case.obj, 1, pt')])) ELSE TRUE
  /\ UNCHANGED <<ci, ph, seq, acc, len, rows, con>>

Next == Pick \/ \E i \in DOMAIN Case.ops : Add(i)
Spec == Init /\ [][Next]_vars

(*---------------- the constraint, stated without its history --------------*)
Accepted == {k \in DOMAIN seq : acc[k] = 1}
\* C23: row i is the sum of the i-th rows of all accepted parts, in whatever order they came
RowsAreSums == ph = "build" =>
  /\ \A k \in Accepted : Length(Op(seq[k])) \in {1, len}
  /\ \A i \in 1..len :
      /\ con[i] = SumSeq([k \in DOMAIN seq |-> IF acc[k] = 1 THEN Const(Op(seq[k]), i) ELSE 0])
      /\ \A p \in 1..NPos(Case) :
           rows[i][p] = SumSeq([k \in DOMAIN seq |-> IF acc[k] = 1 THEN Coef(Case, Op(seq[k]), i, p) ELSE 0])
\* a rejected part has a length of its own which differs from the one the constraint has
RejectedDoNotFit == ph = "build" => \A k \in DOMAIN seq : acc[k] = 0 =>
   LET o == Op(seq[k]) IN ~Fits(o) \/ \E j \in 1..(k - 1) : acc[j] = 1 /\ Length(Op(seq[j])) \notin {1, Length(o)}
\* a sum over all selected indices has one row only, whatever else the constraint holds
OneLength == ph = "build" => Len(rows) = len /\ Len(con) = len /\
   len = Max({1} \cup {Length(Op(seq[k])) : k \in Accepted})
=============================================================================
