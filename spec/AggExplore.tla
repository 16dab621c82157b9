------------------------------ MODULE AggExplore ------------------------------
(***************************************************************************)
(* Aggregated calculations (property C19): a behaviour of EnergySystem on   *)
(* the data used, with corresponding steps of the periods of one cluster    *)
(* equated (AggPeriods; Case.agg is the aggregation).  Explored and         *)
(* replayed like Explore.                                                   *)
(***************************************************************************)
EXTENDS Explore, AggPeriods

A == Case.agg
Level(b, t) == IF b.k = "flow" THEN tot[t].of[b.i] ELSE tot[t].oi[b.i]
Content(s, t) == IF t = 1 THEN C0[s] ELSE tot[t - 1].c[s]
Duration(i, t) == <<tot[t].it[i].run, tot[t].it[i].idle>>

Over == ph = "run" /\ Len(tr) = Case.T
AggNext == Begin
           \/ (ph = "run" /\ Len(tr) < Case.T /\ \E m \in 1..Len(Case.moves[Len(tr) + 1]) : Step(m))
           \/ (Over /\ FinishWith(AggBad(Case, A, Level, X, Content, Duration, LO), AggPenalty(A, Case.T, Level)))
AggSpec == Init /\ [][AggNext]_vars

(* the property over the whole history: periods of one cluster are run alike *)
SamePeriodsAlike == ph = "done" /\ A.maxdev = 0 =>
  \A p, r \in DOMAIN A.order : A.order[p] = A.order[r] => \A k \in 2..Min2(StepsOf(A, Case.T, p), StepsOf(A, Case.T, r)) :
     /\ \A b \in Range(A.bin) : Level(b, FirstOf(A, p) + k) = Level(b, FirstOf(A, r) + k)
     /\ A.data = 1 => \A f \in Range(A.fls) : Abs(X(FirstOf(A, p) + k)[f] - X(FirstOf(A, r) + k)[f]) <= 2 * LO
(* at most the given number of values of a decision deviates *)
FewDeviate == ph = "done" => \A b \in Range(A.bin) : Cardinality({pr \in Pairs(A, Case.T) : Level(b, pr[1]) # Level(b, pr[2])}) <= A.maxdev
==============================================================================
