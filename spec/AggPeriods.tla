----------------------------- MODULE AggPeriods -----------------------------
(***************************************************************************)
(* Aggregated calculations (property C19): which steps are equated, and     *)
(* what equated means.                                                      *)
(*                                                                          *)
(* An aggregation a has                                                     *)
(*   per (steps per period), order (seq: cluster of each period),           *)
(*   data 1 iff data is aggregated: time-dependent quantities are equated,  *)
(*   fls, sts: flows and storages of the chosen components,                 *)
(*   bin: their on/off decisions [k "flow"/"item", i, off, sw: 1 iff there  *)
(*     are decisions on being off / starting and stopping, run, idle: 1 iff *)
(*     there are durations],                                                *)
(*   pws: piecewise relations, maxdev, pen: how many values of a binary     *)
(*   decision may deviate, and what each costs.                             *)
(***************************************************************************)
EXTENDS EnergySystem

FirstOf(a, p) == (p - 1) * a.per
StepsOf(a, T, p) == LET n == T - FirstOf(a, p) IN IF n < a.per THEN n ELSE a.per
\* every period is compared with the first one of its cluster, from the second step on
Ref(a, p) == CHOOSE r \in DOMAIN a.order : a.order[r] = a.order[p] /\ \A s \in DOMAIN a.order : a.order[s] = a.order[p] => r <= s
Pairs(a, T) == UNION {{<<FirstOf(a, Ref(a, p)) + k, FirstOf(a, p) + k>> : k \in 2..StepsOf(a, T, p)} : p \in {p \in DOMAIN a.order : Ref(a, p) # p}}

(* what happened: lvl(b, t) is decision b at step t (0: before the first), x(t) the rates,             *)
(* con(s, t) the content of storage s at the beginning of step t, dur(i, t) [run, idle] of item i      *)
Starts(lvl(_, _), b, t) == IF lvl(b, t) = 1 /\ lvl(b, t - 1) = 0 THEN 1 ELSE 0
Stops(lvl(_, _), b, t) == IF lvl(b, t) = 0 /\ lvl(b, t - 1) = 1 THEN 1 ELSE 0
Devs(a, T, V(_)) == Cardinality({pr \in Pairs(a, T) : V(pr[1]) # V(pr[2])})
\* deviations of each of the decisions of b
Deviations(a, T, lvl(_, _), b) ==
  LET l(t) == lvl(b, t)  up(t) == Starts(lvl, b, t)  dn(t) == Stops(lvl, b, t) IN
  <<Devs(a, T, l)>>
  \o (IF b.off = 1 THEN <<Devs(a, T, l)>> ELSE <<>>)
  \o (IF b.sw = 1 THEN <<Devs(a, T, up), Devs(a, T, dn)>> ELSE <<>>)
\* segments of a piecewise relation the rates lie on (0: none, the component is off)
SegsAt(cs, w, x, t, off, tol) == IF off THEN {0} ELSE {g \in DOMAIN w.seg : OnSegment(w, t, x, g, tol)}
\* one choice of segment must fit a step and all equated with it
SegsTogether(cs, a, T, w, x(_), off(_), t, tol) ==
  {g \in SegsAt(cs, w, x(t), t, off(t), tol) : \A pr \in Pairs(a, T) : pr[1] = t => g \in SegsAt(cs, w, x(pr[2]), pr[2], off(pr[2]), tol)}

AggBad(cs, a, lvl(_, _), x(_), con(_, _), dur(_, _), low) ==
  LET T == cs.T
      P == Pairs(a, T)
      values == {<<x(pr[1])[f], x(pr[2])[f]>> : pr \in P, f \in Range(a.fls)} \cup {<<con(s, pr[1]), con(s, pr[2])>> : pr \in P, s \in Range(a.sts)}
      items == {b \in Range(a.bin) : b.k = "item"}
      times == UNION {{<<dur(b.i, pr[1])[1] * b.run, dur(b.i, pr[2])[1] * b.run>>, <<dur(b.i, pr[1])[2] * b.idle, dur(b.i, pr[2])[2] * b.idle>>} : pr \in P, b \in items}
      off(w) == [t \in 1..T |-> w.oo # 0 /\ lvl([k |-> "item", i |-> w.oo], t) = 0]
  IN (IF a.data = 1 /\ \E d \in values : Abs(d[1] - d[2]) > HI THEN {"C19:continuous"}
      ELSE IF a.data = 1 /\ \E d \in values : Abs(d[1] - d[2]) > low THEN {"AMBIG"} ELSE {})
     \cup (IF a.data = 1 /\ \E d \in times : d[1] # d[2] THEN {"C19:duration"} ELSE {})
     \cup (IF \E b \in Range(a.bin) : \E n \in Range(Deviations(a, T, lvl, b)) : n > a.maxdev THEN {"C19:binary"} ELSE {})
     \cup (IF \E i \in Range(a.pws) : LET w == cs.pws[i]  of(t) == off(w)[t] IN \E pr \in P : SegsTogether(cs, a, T, w, x, of, pr[1], HI) = {} THEN {"C19:segment"}
           ELSE IF \E i \in Range(a.pws) : LET w == cs.pws[i]  of(t) == off(w)[t] IN \E pr \in P : SegsTogether(cs, a, T, w, x, of, pr[1], low) = {} THEN {"AMBIG"} ELSE {})
AggPenalty(a, T, lvl(_, _)) == a.pen * SumSeq([n \in DOMAIN a.bin |-> SumSeq(Deviations(a, T, lvl, a.bin[n]))])
=============================================================================
