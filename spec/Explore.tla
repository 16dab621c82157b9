------------------------------- MODULE Explore -------------------------------
(***************************************************************************)
(* Exploration of EnergySystem (specification -> code).                     *)
(*                                                                          *)
(* All behaviours of a set of cases whose steps are taken from the finite   *)
(* candidate sets moves[t] are explored.  Every complete legal behaviour is *)
(* printed with the effect totals, penalty, objective, storage contents and *)
(* states it must have; every step, initial choice or end of horizon that   *)
(* the specification forbids is printed with the violated clauses.  The     *)
(* harness replays each of them in the optimisation problem that flixOpt    *)
(* builds for the same system: legal ones must be admitted, with the same   *)
(* effects, forbidden ones must be excluded.                                *)
(*                                                                          *)
(* The invariants below state the properties over the whole history of a    *)
(* behaviour, independently of the bookkeeping of EnergySystem.             *)
(***************************************************************************)
EXTENDS EnergySystem, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci,      \* which case
          si, c0i, \* which candidate sizes / initial contents
          ph,      \* "run", "done", "rejected"
          st,      \* state of EnergySystem
          tr,      \* indices of the moves taken
          tot      \* per step: direct effects, effect totals, penalty, states
vars == <<ci, si, c0i, ph, st, tr, tot>>

Case == Cases[ci]
Sz == Case.szs[si]
C0 == Case.c0s[c0i]

Emit(r) == PrintT(ToJson(r))
Base(k) == [k |-> k, ci |-> ci, s |-> si, c |-> c0i, m |-> tr]

Init ==
  /\ ci \in 1..Len(Cases)
  /\ si \in 1..Len(Cases[ci].szs)
  /\ c0i \in 1..Len(Cases[ci].c0s)
  /\ tr = <<>> /\ tot = <<>>
  /\ st = InitState(Cases[ci], Cases[ci].szs[si], Cases[ci].c0s[c0i])
  /\ ph = "new"

Begin ==
  /\ ph = "new"
  /\ LET b == InitBad(Case, Sz, C0) IN
     IF b = {} THEN ph' = "run"
     ELSE ph' = "rejected" /\ Emit(Base("I") @@ [bad |-> b])
  /\ UNCHANGED <<ci, si, c0i, st, tr, tot>>

Step(m) ==
  LET t  == Len(tr) + 1
      x  == Case.moves[t][m]
      of == FlowOn(Case, x)
      oi == ItemOn(Case, of)
      ei == ExIn(Case, x)
      eo == ExOut(Case, x)
      r  == StepEval(Case, Sz, st, t, x, of, oi, ei, eo)
  IN /\ tr' = Append(tr, m)
     /\ IF r.bad = {}
        THEN /\ ph' = "run" /\ st' = r.st
             /\ tot' = Append(tot, [opt |-> r.opt, dir |-> r.dir, pen |-> r.pent, of |-> of, oi |-> oi, c |-> r.st.c,
                                 it |-> r.st.it, ei |-> ei, eo |-> eo])
        ELSE /\ ph' = "rejected" /\ UNCHANGED <<st, tot>>
             /\ Emit([k |-> "S", ci |-> ci, s |-> si, c |-> c0i, m |-> tr', bad |-> r.bad])
     /\ UNCHANGED <<ci, si, c0i>>

\* more / pen: further reasons to reject and further penalties (see AggExplore)
FinishWith(more, pen) ==
  /\ ph = "run" /\ Len(tr) = Case.T
  /\ LET b == FinalBad(Case, Sz, C0, st) \cup more IN
     IF b = {}
     THEN /\ ph' = "done"
          /\ Emit(Base("L") @@
               [op |-> st.op, iv |-> InvTotals(Case, Sz), pen |-> st.pen + pen,
                obj |-> st.op[Case.obj] + InvTotals(Case, Sz)[Case.obj],
                ct |-> [t \in 1..Case.T |-> tot[t].c],
                opt |-> [t \in 1..Case.T |-> tot[t].opt],
                of |-> [t \in 1..Case.T |-> tot[t].of],
                oi |-> [t \in 1..Case.T |-> tot[t].oi],
                run |-> [t \in 1..Case.T |-> [i \in DOMAIN Case.onoffs |-> tot[t].it[i].run]],
                idle |-> [t \in 1..Case.T |-> [i \in DOMAIN Case.onoffs |-> tot[t].it[i].idle]],
                nsp |-> [t \in 1..Case.T |-> [i \in DOMAIN Case.onoffs |-> tot[t].it[i].nsp]],
                nsts |-> [t \in 1..Case.T |-> [i \in DOMAIN Case.onoffs |-> tot[t].it[i].nst]],
                ei |-> [t \in 1..Case.T |-> tot[t].ei], eo |-> [t \in 1..Case.T |-> tot[t].eo],
                was |-> [i \in DOMAIN Case.onoffs |-> InitItem(Case, Case.onoffs[i]).on],
                nst |-> [i \in DOMAIN Case.onoffs |-> st.it[i].nst],
                onm |-> [i \in DOMAIN Case.onoffs |-> st.it[i].onmin],
                fh |-> st.fh])
     ELSE ph' = "rejected" /\ Emit(Base("F") @@ [bad |-> b])
  /\ UNCHANGED <<ci, si, c0i, st, tr, tot>>
Finish == FinishWith({}, 0)

Next == Begin
        \/ (ph = "run" /\ Len(tr) < Case.T /\ \E m \in 1..Len(Case.moves[Len(tr) + 1]) : Step(m))
        \/ Finish

Spec == Init /\ [][Next]_vars

(*------------- the properties, stated over the whole history -------------*)
X(t) == Case.moves[t][tr[t]]
N == Len(tot)
Alive == ph \in {"run", "done"}

\* C01: what enters a bus leaves it, up to penalised excess
BusesBalance == Alive => \A t \in 1..N : \A b \in DOMAIN Case.buses :
   Case.buses[b].pen = <<>> => Abs(NetIn(Case, b, X(t))) <= LO

\* C05: energy stored = energy in - energy out - losses, over any horizon
StorageConserves == Alive => \A s \in DOMAIN Case.stors :
   LET q == Case.stors[s] IN
   (\A t \in 1..N : q.loss[t] = 0) /\ N > 0 =>
   Abs(tot[N].c[s] - C0[s]
       - SumSeq([t \in 1..N |-> PerHour(MulC(X(t)[q.ch], q.etac[t]), Case.dt[t]) - PerHour(DivC(X(t)[q.dis], q.etad[t]), Case.dt[t])])) <= LO

\* C06: contents within the capacity band at every point
StorageWithinLimits == Alive => \A s \in DOMAIN Case.stors : \A t \in 1..N :
   LET q == Case.stors[s]  cap == Cap(Case, q, Sz) IN
   tot[t].c[s] <= MulC(cap, q.rmax[t + 1]) + LO /\ tot[t].c[s] >= MulC(cap, q.rmin[t + 1]) - LO

\* C08: every completed period within the horizon respects its minimum, every period its maximum
Runs(i, v) == {<<a, b>> \in (1..N) \X (1..N) : a <= b /\ (\A t \in a..b : tot[t].oi[i] = v)
                 /\ (a = 1 \/ tot[a - 1].oi[i] # v) /\ (b = N \/ tot[b + 1].oi[i] # v)}
RunHours(i, v, r) == SumSeq([k \in 1..(r[2] - r[1] + 1) |-> Case.dt[r[1] + k - 1]])
   + (IF r[1] = 1 THEN (LET h == PrevOn(Case, Case.onoffs[i]) IN Trailing(Case, h, v, 1)) ELSE 0)
RunsRespectLimits == Alive => \A i \in DOMAIN Case.onoffs :
   LET oo == Case.onoffs[i] IN
   /\ oo.runmin # <<>> => \A r \in Runs(i, 1) : r[2] = N \/ RunHours(i, 1, r) >= oo.runmin[r[2]]
   /\ oo.runmax # <<>> => \A r \in Runs(i, 1) : \A t \in r[1]..r[2] : RunHours(i, 1, <<r[1], t>>) <= oo.runmax[t]
   /\ oo.offmin # <<>> => \A r \in Runs(i, 0) : r[2] = N \/ RunHours(i, 0, r) >= oo.offmin[r[2]]
   /\ oo.offmax # <<>> => \A r \in Runs(i, 0) : \A t \in r[1]..r[2] : RunHours(i, 0, <<r[1], t>>) <= oo.offmax[t]

\* C09: the number of starts is the number of off->on changes, the first counted against the history
StartsCounted == Alive => \A i \in DOMAIN Case.onoffs :
   LET h == PrevOn(Case, Case.onoffs[i])
       was(t) == IF t = 1 THEN h[Len(h)] ELSE tot[t - 1].oi[i] IN
   st.it[i].nst = Cardinality({t \in 1..N : tot[t].oi[i] = 1 /\ was(t) = 0})

\* C12: never two flows of an exclusive group
Exclusive == Alive => \A t \in 1..N : \A g \in Range(Case.excl) : \A f1, f2 \in Range(g) :
   X(t)[f1] > ONEPS /\ X(t)[f2] > ONEPS => f1 = f2

\* C13: per step the total of an effect is the sum of the direct shares of all effects,
\* each multiplied by the summed products of factors along all paths to it (acyclic shares)
RECURSIVE PathFactor(_, _, _, _)
PathFactor(t, o, e, x) ==    \* x carried from o into e
  (IF o = e THEN x ELSE 0) +
  SumSeq([j \in DOMAIN Case.effs[o].so |-> PathFactor(t, Case.effs[o].so[j].e, e, MulC(x, Case.effs[o].so[j].f[t]))])
EffectsAccounted == Alive => \A t \in 1..N : \A e \in DOMAIN Case.effs :
   Abs(tot[t].opt[e] - SumSeq([o \in DOMAIN Case.effs |-> PathFactor(t, o, e, tot[t].dir[o])])) <= LO

\* C14: totals of a finished behaviour within the effect limits
EffectsWithinLimits == ph = "done" => \A e \in DOMAIN Case.effs :
   LET ef == Case.effs[e]  o == SumSeq([t \in 1..N |-> tot[t].opt[e]]) IN
   /\ Given(ef.maxop) => o <= ef.maxop + LO
   /\ Given(ef.minop) => o >= ef.minop - LO
   /\ Given(ef.maxtot) => o + InvTotals(Case, Sz)[e] <= ef.maxtot + LO
   /\ Given(ef.mintot) => o + InvTotals(Case, Sz)[e] >= ef.mintot - LO

\* C10: sizes of running systems respect the rules
SizesLegal == Alive => \A i \in DOMAIN Case.invs :
   LET in == Case.invs[i] IN
   (in.opt = 1 /\ Sz[i] = 0) \/ (InvMin(in) - LO <= Sz[i] /\ Sz[i] <= InvMax(in) + LO)
==============================================================================
