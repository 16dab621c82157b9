----------------------------- MODULE EnergySystem -----------------------------
(***************************************************************************)
(* The abstract energy system behind flixOpt: a state machine whose steps   *)
(* are the time steps of the horizon.                                       *)
(*                                                                          *)
(*   state   storage contents, running/idle durations and status of every   *)
(*           on/off item, number of starts, on-time, flow-hours, effect     *)
(*           totals, penalty; the investment sizes are decided at Init.     *)
(*   step    a vector of flow rates (one per flow).                         *)
(*                                                                          *)
(* A "case" is a complete description of one system: the horizon, flows,    *)
(* buses, converters, storages, on/off items, investments and effects; it   *)
(* is what the user states to flixOpt.  Every rule of the system is a named *)
(* clause "Cxx:name", Cxx being the listed property it belongs to.          *)
(*                                                                          *)
(* StepEval yields, for a state and a step, the set of violated clauses and *)
(* the successor state.  A clause exceeded by more than HI is violated, one *)
(* exceeded by at most LO holds (rounding); in between lies AMBIG, for      *)
(* which nothing is claimed.                                                *)
(***************************************************************************)
EXTENDS FixedPoint, TLC

CONSTANTS LO, HI, ONEPS      \* ONEPS: rates above this are "non-zero"

Viol(name, x) == IF x > HI THEN {name} ELSE IF x > LO THEN {"AMBIG"} ELSE {}
VAbs(name, x) == Viol(name, Abs(x))

(*------------------------------ the horizon ------------------------------*)
Steps(cs) == 1..cs.T
Hours(cs) == SumSeq(cs.dt)                       \* minutes, total

(* Effect named by e; 0 stands for "not named": the standard effect.        *)
Eff(cs, e) == IF e = 0 THEN cs.std ELSE e

(*----------------------------- investments -------------------------------*)
(* in : the investment record, s : decided size                             *)
InvMin(in) == IF Given(in.fixed) THEN in.fixed ELSE in.min
InvMax(in) == IF Given(in.fixed) THEN in.fixed ELSE in.max

InSegX(sg, s) == Min2(sg[1], sg[2]) - LO <= s /\ s <= Max2(sg[1], sg[2]) + LO
Interp(s, x, y) == IF x[2] = x[1] THEN y[1]
                   ELSE y[1] + MulDivW(y[2] - y[1], s - x[1], x[2] - x[1])
InvBadOne(in, s) ==
  LET tooBig   == Viol("C10:size_above_maximum", s - InvMax(in))
      tooSmall == Viol("C10:size_below_minimum", InvMin(in) - s)
      on       == {i \in DOMAIN in.segx : InSegX(in.segx[i], s)}
      \* at a common end of two segments with different effects either value is right
      seg      == IF in.segx = <<>> \/ (in.opt = 1 /\ s = 0) THEN {}
                  ELSE IF on = {} THEN {"C11:size_outside_segments"}
                  ELSE IF \E i, k \in on : \E j \in DOMAIN in.segy :
                            Abs(Interp(s, in.segx[i], in.segy[j].y[i]) - Interp(s, in.segx[k], in.segy[j].y[k])) > LO
                       THEN {"AMBIG"} ELSE {}
  IN IF in.opt = 1 /\ s = 0 THEN {}
     ELSE Viol("C10:negative_size", -s) \cup tooBig \cup tooSmall \cup seg
InvBad(cs, sz) ==
  (UNION {InvBadOne(cs.invs[i], sz[i]) : i \in DOMAIN cs.invs})
  \cup (UNION {VAbs("C16:directions_differ_in_size", sz[q[1]] - sz[q[2]]) : q \in Range(cs.eqsz)})

(* investment effects of one investment on effect e                         *)
InvList(cs, lst, e) == SumSeq([j \in DOMAIN lst |-> IF Eff(cs, lst[j].e) = e THEN lst[j].v ELSE 0])
InvSeg(cs, in, s, e) ==
  IF in.segx = <<>> \/ (in.opt = 1 /\ s = 0) \/ ~\E i \in DOMAIN in.segx : InSegX(in.segx[i], s)
  THEN 0
  ELSE LET i == CHOOSE i \in DOMAIN in.segx : InSegX(in.segx[i], s)
       IN  SumSeq([j \in DOMAIN in.segy |->
             IF Eff(cs, in.segy[j].e) = e THEN Interp(s, in.segx[i], in.segy[j].y[i]) ELSE 0])
InvEffOne(cs, in, s, e) ==
  (IF in.opt = 0 \/ s # 0 THEN InvList(cs, in.fix, e) ELSE 0)
  + (IF in.opt = 1 /\ s = 0 THEN InvList(cs, in.div, e) ELSE 0)
  + SumSeq([j \in DOMAIN in.spec |-> IF Eff(cs, in.spec[j].e) = e THEN MulDiv(s, in.spec[j].v, 10000) ELSE 0])
  + InvSeg(cs, in, s, e)
InvDirect(cs, sz) == [e \in DOMAIN cs.effs |->
   SumSeq([i \in DOMAIN cs.invs |-> InvEffOne(cs, cs.invs[i], sz[i], e)])]

(*------------------------ shares between effects -------------------------*)
(* total(e) = direct(e) + sum over effects o sharing into e of factor*total(o) *)
RECURSIVE OpTot(_, _, _, _)
OpTot(cs, direct, t, e) == direct[e] + SumSeq([o \in DOMAIN cs.effs |->
   SumSeq([j \in DOMAIN cs.effs[o].so |->
      IF cs.effs[o].so[j].e = e THEN MulC(OpTot(cs, direct, t, o), cs.effs[o].so[j].f[t]) ELSE 0])])
RECURSIVE InvTot(_, _, _)
InvTot(cs, direct, e) == direct[e] + SumSeq([o \in DOMAIN cs.effs |->
   SumSeq([j \in DOMAIN cs.effs[o].si |->
      IF cs.effs[o].si[j].e = e THEN MulC(InvTot(cs, direct, o), cs.effs[o].si[j].f) ELSE 0])])

(*------------------------------- history ---------------------------------*)
(* oo.fl are the flows defining the status of on/off item oo.  The history  *)
(* is the status in the steps before the horizon, oldest first; without any *)
(* previous flow rate the item counts as off in one previous step.          *)
HistLen(cs, oo) == Max({Len(cs.flows[f].prev) : f \in Range(oo.fl)})
PrevOn(cs, oo) ==
  LET n == HistLen(cs, oo) IN
  IF n = 0 THEN <<0>>
  ELSE [j \in 1..n |-> IF \E f \in Range(oo.fl) :
            Len(cs.flows[f].prev) >= n + 1 - j
            /\ Abs(cs.flows[f].prev[Len(cs.flows[f].prev) - (n - j)]) > 0 THEN 1 ELSE 0]
(* length of the history step which lies j steps before the horizon         *)
PrevDt(cs, j) == IF Len(cs.prevdt) = 1 THEN cs.prevdt[1] ELSE cs.prevdt[Len(cs.prevdt) + 1 - j]
RECURSIVE Trailing(_, _, _, _)
Trailing(cs, h, st, j) ==      \* hours of the last uninterrupted period with status st
  IF j > Len(h) \/ h[Len(h) + 1 - j] # st THEN 0
  ELSE PrevDt(cs, j) + Trailing(cs, h, st, j + 1)

InitItem(cs, oo) ==
  LET h == PrevOn(cs, oo) IN
  [on |-> h[Len(h)], run |-> Trailing(cs, h, 1, 1), idle |-> Trailing(cs, h, 0, 1),
   nst |-> 0, nsp |-> 0, onmin |-> 0]

(*------------------------------ initial state ----------------------------*)
InitState(cs, sz, c0) ==
  [c     |-> c0,
   it    |-> [i \in DOMAIN cs.onoffs |-> InitItem(cs, cs.onoffs[i])],
   fh    |-> [f \in DOMAIN cs.flows |-> 0],
   op    |-> [e \in DOMAIN cs.effs |-> 0],
   pen   |-> 0]

Cap(cs, st, sz) == IF st.inv = 0 THEN st.cap ELSE sz[st.inv]
(* Storage limits at point i (1 = start of horizon, T+1 = its end)          *)
StorBad(cs, sz, s, i, c) ==
  LET st == cs.stors[s]  cap == Cap(cs, st, sz) IN
  Viol("C06:content_above_limit", c - MulC(cap, st.rmax[i]))
  \cup Viol("C06:content_below_limit", MulC(cap, st.rmin[i]) - c)
InitBad(cs, sz, c0) ==
  InvBad(cs, sz) \cup
  UNION {StorBad(cs, sz, s, 1, c0[s])
         \cup (IF Given(cs.stors[s].init) THEN VAbs("C06:initial_content", c0[s] - cs.stors[s].init) ELSE {})
         : s \in DOMAIN cs.stors}

(*------------------------------ one time step ----------------------------*)
Size(cs, f, sz) == IF cs.flows[f].inv = 0 THEN cs.flows[f].size ELSE sz[cs.flows[f].inv]

FlowBad(cs, sz, t, f, x, on) ==
  LET fl == cs.flows[f]  s == Size(cs, f, sz)
      p  == IF fl.inv = 0 THEN "C02:" ELSE "C10:" IN
  \* with a profile and a size to be decided there is no "off": the rate always follows the profile
  IF fl.inv # 0 /\ fl.prof # <<>> THEN VAbs("C10:profile", x - MulC(s, fl.prof[t]))
  ELSE IF fl.onoff = 1 /\ on = 0 THEN VAbs("C07:off_but_flowing", x)
  ELSE IF ~Given(s) THEN Viol("C02:negative_rate", -x)      \* no size stated: no upper limit
  ELSE IF fl.prof # <<>> THEN VAbs(p \o "profile", x - MulC(s, fl.prof[t]))
  ELSE Viol(p \o "above_maximum", x - MulC(s, fl.rmax[t]))
       \cup Viol(p \o "below_minimum", MulC(s, fl.rmin[t]) - x)

(* Residuals of the converter equations: all must be zero.                  *)
RelResid(d, t, x, on) ==
  LET P(n) == d.par[n][t]  X(n) == x[d.fl[n]]  O(n) == on[d.fl[n]] IN
  CASE d.kind = "Boiler"        -> <<MulC(X(1), P(1)) - X(2)>>                  \* Q_fu, Q_th ; eta
    [] d.kind = "Power2Heat"    -> <<MulC(X(1), P(1)) - X(2)>>                  \* P_el, Q_th ; eta
    [] d.kind = "HeatPump"      -> <<MulC(X(1), P(1)) - X(2)>>                  \* P_el, Q_th ; COP
    [] d.kind = "CoolingTower"  -> <<X(1) - MulC(X(2), P(1))>>                  \* P_el, Q_th ; specific demand
    [] d.kind = "CHP"           -> <<MulC(X(1), P(1)) - X(2), MulC(X(1), P(2)) - X(3)>>  \* Q_fu, Q_th, P_el
    [] d.kind = "HPSource"      -> <<MulC(X(1), P(1)) - X(3), X(1) + X(2) - X(3)>>       \* P_el, Q_ab, Q_th
    [] d.kind = "Transmission"  -> <<X(1) - MulC(X(1), P(1)) - (IF O(1) = 1 THEN 10 * P(2) ELSE 0) - X(2)>>
    [] d.kind = "Linear"        ->   \* eqs: sequence of sequences of [f, io (+1 in, -1 out), c]
         [q \in DOMAIN d.eqs |-> SumSeq([j \in DOMAIN d.eqs[q] |->
              d.eqs[q][j].io * MulC(x[d.eqs[q][j].f], d.eqs[q][j].c[t])])]
    [] OTHER -> <<>>
RelBad(d, t, x, on) ==
  LET r == RelResid(d, t, x, on)
      p == IF d.kind = "Transmission" THEN "C16:transmission_equation" ELSE "C03:conversion"
  IN UNION {VAbs(p, r[i]) : i \in DOMAIN r}

(* Piecewise conversion: all flows at one relative position of one segment. *)
OnSegment(d, t, x, sg, tol) ==
  LET a(n) == d.seg[sg][n].a[t]  b(n) == d.seg[sg][n].b[t]
      N == DOMAIN d.fl
      w == CHOOSE n \in N : \A m \in N : Abs(b(n) - a(n)) >= Abs(b(m) - a(m))
      y(n) == x[d.fl[n]]
  IN IF b(w) = a(w) THEN \A n \in N : Abs(y(n) - a(n)) <= tol
     ELSE /\ Min2(a(w), b(w)) - tol <= y(w) /\ y(w) <= Max2(a(w), b(w)) + tol
          /\ \A n \in N : Abs(y(n) - (a(n) + MulDivW(b(n) - a(n), y(w) - a(w), b(w) - a(w)))) <= tol
PwBad(cs, d, t, x, onc) ==
  IF d.oo # 0 /\ onc[d.oo] = 0
  THEN UNION {VAbs("C04:off_but_flowing", x[d.fl[n]]) : n \in DOMAIN d.fl}
  ELSE IF \E sg \in DOMAIN d.seg : OnSegment(d, t, x, sg, LO) THEN {}
  ELSE IF \E sg \in DOMAIN d.seg : OnSegment(d, t, x, sg, HI) THEN {"AMBIG"} ELSE {"C04:not_on_a_segment"}

Lim(seq, t) == seq[t]
(* on/off items: durations, limits, starts                                  *)
ItemNext(cs, i, t, st, on) ==
  LET dt == cs.dt[t] IN
  [on   |-> on,
   run  |-> IF on = 1 THEN st.run + dt ELSE 0,
   idle |-> IF on = 0 THEN st.idle + dt ELSE 0,
   nst  |-> st.nst + (IF on = 1 /\ st.on = 0 THEN 1 ELSE 0),
   nsp  |-> st.nsp + (IF on = 0 /\ st.on = 1 THEN 1 ELSE 0),
   onmin |-> st.onmin + (IF on = 1 THEN dt ELSE 0)]
ItemBad(cs, i, t, st, nx) ==
  LET oo == cs.onoffs[i]  u == Max2(1, t - 1) IN
  (IF oo.runmin # <<>> /\ st.on = 1 /\ nx.on = 0 /\ st.run < oo.runmin[u] THEN {"C08:run_shorter_than_minimum"} ELSE {})
  \cup (IF oo.runmax # <<>> /\ nx.on = 1 /\ nx.run > oo.runmax[t] THEN {"C08:run_longer_than_maximum"} ELSE {})
  \cup (IF oo.offmin # <<>> /\ st.on = 0 /\ nx.on = 1 /\ st.idle < oo.offmin[u] THEN {"C08:idle_shorter_than_minimum"} ELSE {})
  \cup (IF oo.offmax # <<>> /\ nx.on = 0 /\ nx.idle > oo.offmax[t] THEN {"C08:idle_longer_than_maximum"} ELSE {})
  \cup (IF Given(oo.swmax) /\ nx.nst > oo.swmax THEN {"C09:too_many_starts"} ELSE {})

EffSum(cs, lst, t, e) == SumSeq([j \in DOMAIN lst |-> IF Eff(cs, lst[j].e) = e THEN lst[j].v[t] ELSE 0])
DirectOp(cs, t, x, it0, it1) == [e \in DOMAIN cs.effs |->
   SumSeq([f \in DOMAIN cs.flows |-> SumSeq([j \in DOMAIN cs.flows[f].eff |->
        IF Eff(cs, cs.flows[f].eff[j].e) = e
        THEN PerHour(MulC(x[f], cs.flows[f].eff[j].v[t]), cs.dt[t]) ELSE 0])])
   + SumSeq([i \in DOMAIN cs.onoffs |->
        (IF it1[i].nst > it0[i].nst THEN EffSum(cs, cs.onoffs[i].esw, t, e) ELSE 0)
        + (IF it1[i].on = 1 THEN PerHour(EffSum(cs, cs.onoffs[i].erun, t, e), cs.dt[t]) ELSE 0)])]

NetIn(cs, b, x) == SumSeq([f \in DOMAIN cs.flows |-> IF cs.flows[f].bus = b THEN cs.flows[f].sgn * x[f] ELSE 0])

FlowOn(cs, x) == [f \in DOMAIN cs.flows |-> IF Abs(x[f]) > ONEPS THEN 1 ELSE 0]
ItemOn(cs, onf) == [i \in DOMAIN cs.onoffs |-> IF \E f \in Range(cs.onoffs[i].fl) : onf[f] = 1 THEN 1 ELSE 0]

(* state st, sizes sz, step t with rates x, status of flows onf and items   *)
(* onc, excess into (ei) and out of (eo) each bus                           *)
StepEval(cs, sz, st, t, x, onf, onc, ei, eo) ==
  LET dt  == cs.dt[t]
      it1 == [i \in DOMAIN cs.onoffs |-> ItemNext(cs, i, t, st.it[i], onc[i])]
      c1  == [s \in DOMAIN cs.stors |->
               LET q == cs.stors[s] IN
               st.c[s] - PerHour(MulC(st.c[s], q.loss[t]), dt)
               + PerHour(MulC(x[q.ch], q.etac[t]), dt)
               - PerHour(DivC(x[q.dis], q.etad[t]), dt)]
      dir == DirectOp(cs, t, x, st.it, it1)
      opt == [e \in DOMAIN cs.effs |-> OpTot(cs, dir, t, e)]
      pen == SumSeq([b \in DOMAIN cs.buses |-> IF cs.buses[b].pen = <<>> THEN 0
                     ELSE PerHour(MulC(ei[b] + eo[b], cs.buses[b].pen[t]), dt)])
      bad == (UNION {FlowBad(cs, sz, t, f, x[f], onf[f]) : f \in DOMAIN cs.flows})
        \cup (UNION {VAbs("C01:bus_balance", NetIn(cs, b, x) + ei[b] - eo[b])
                     \cup (IF cs.buses[b].pen = <<>> THEN VAbs("C01:excess_without_penalty", ei[b] + eo[b])
                           ELSE Viol("C01:negative_excess", Max2(-ei[b], -eo[b]))) : b \in DOMAIN cs.buses})
        \cup (UNION {RelBad(cs.rels[d], t, x, onf) : d \in DOMAIN cs.rels})
        \cup (UNION {PwBad(cs, cs.pws[d], t, x, onc) : d \in DOMAIN cs.pws})
        \cup (UNION {IF Cardinality({f \in Range(g) : onf[f] = 1}) > 1 THEN {"C12:simultaneous_use"} ELSE {} : g \in Range(cs.excl)})
        \cup (UNION {StorBad(cs, sz, s, t + 1, c1[s]) : s \in DOMAIN cs.stors})
        \cup (UNION {ItemBad(cs, i, t, st.it[i], it1[i]) : i \in DOMAIN cs.onoffs})
        \cup (UNION {(IF cs.effs[e].maxph = <<>> THEN {} ELSE Viol("C14:above_per_hour_maximum", opt[e] - PerHour(cs.effs[e].maxph[t], dt)))
                     \cup (IF cs.effs[e].minph = <<>> THEN {} ELSE Viol("C14:below_per_hour_minimum", PerHour(cs.effs[e].minph[t], dt) - opt[e]))
                     : e \in DOMAIN cs.effs})
  IN [bad |-> bad, opt |-> opt, dir |-> dir, pent |-> pen,
      st |-> [c |-> c1, it |-> it1,
              fh |-> [f \in DOMAIN cs.flows |-> st.fh[f] + PerHour(x[f], dt)],
              op |-> [e \in DOMAIN cs.effs |-> st.op[e] + opt[e]],
              pen |-> st.pen + pen]]

(* the excess the cheapest completion of a step has                         *)
ExIn(cs, x)  == [b \in DOMAIN cs.buses |-> IF cs.buses[b].pen = <<>> THEN 0 ELSE Max2(0, -NetIn(cs, b, x))]
ExOut(cs, x) == [b \in DOMAIN cs.buses |-> IF cs.buses[b].pen = <<>> THEN 0 ELSE Max2(0, NetIn(cs, b, x))]

(*---------------------------- end of the horizon -------------------------*)
InvTotals(cs, sz) == LET d == InvDirect(cs, sz) IN [e \in DOMAIN cs.effs |-> InvTot(cs, d, e)]
UpTo(name, x, lim) == IF Given(lim) THEN Viol(name, x - lim) ELSE {}
AtLeast(name, x, lim) == IF Given(lim) THEN Viol(name, lim - x) ELSE {}
FinalBad(cs, sz, c0, st) ==
  LET iv == InvTotals(cs, sz) IN
  (UNION {LET fl == cs.flows[f]  s == Size(cs, f, sz) IN
      UpTo("C02:total_flow_hours_above_maximum", st.fh[f], fl.fhmax)
      \cup AtLeast("C02:total_flow_hours_below_minimum", st.fh[f], fl.fhmin)
      \cup (IF Given(fl.lfmax) THEN Viol("C02:load_factor_above_maximum", st.fh[f] - PerHour(MulC(s, fl.lfmax), Hours(cs))) ELSE {})
      \cup (IF Given(fl.lfmin) THEN Viol("C02:load_factor_below_minimum", PerHour(MulC(s, fl.lfmin), Hours(cs)) - st.fh[f]) ELSE {})
      : f \in DOMAIN cs.flows})
  \cup (UNION {LET q == cs.stors[s] IN
      UpTo("C06:final_content_above_maximum", st.c[s], q.fmax)
      \cup AtLeast("C06:final_content_below_minimum", st.c[s], q.fmin)
      \cup (IF q.cyc = 1 THEN VAbs("C06:cyclic_content", st.c[s] - c0[s]) ELSE {})
      : s \in DOMAIN cs.stors})
  \cup (UNION {LET oo == cs.onoffs[i] IN
      (IF Given(oo.hmax) /\ st.it[i].onmin > oo.hmax THEN {"C07:on_hours_above_maximum"} ELSE {})
      \cup (IF Given(oo.hmin) /\ st.it[i].onmin < oo.hmin THEN {"C07:on_hours_below_minimum"} ELSE {})
      : i \in DOMAIN cs.onoffs})
  \cup (UNION {LET ef == cs.effs[e] IN
      UpTo("C14:operation_above_maximum", st.op[e], ef.maxop)
      \cup AtLeast("C14:operation_below_minimum", st.op[e], ef.minop)
      \cup UpTo("C14:invest_above_maximum", iv[e], ef.maxinv)
      \cup AtLeast("C14:invest_below_minimum", iv[e], ef.mininv)
      \cup UpTo("C14:total_above_maximum", st.op[e] + iv[e], ef.maxtot)
      \cup AtLeast("C14:total_below_minimum", st.op[e] + iv[e], ef.mintot)
      : e \in DOMAIN cs.effs})

Objective(cs, sz, st) == st.op[cs.obj] + InvTotals(cs, sz)[cs.obj] + st.pen
=============================================================================
