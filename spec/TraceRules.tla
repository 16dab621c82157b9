------------------------------ MODULE TraceRules ------------------------------
(***************************************************************************)
(* What a reported result of one calculation must look like, given the case *)
(* it was calculated for: the rules of EnergySystem, and that everything    *)
(* reported is what the specification derives.  Used by Trace (results of   *)
(* one calculation) and Segmented (results of consecutive windows).         *)
(***************************************************************************)
EXTENDS EnergySystem

At(s, clauses) == {<<s, c>> : c \in clauses \ {"AMBIG"}}
Rep(name, spec, rep, tol) == IF Abs(spec - rep) > tol THEN {name} ELSE {}
\* reported energies accumulate rounding errors of the rates: tolerance relative to the amount
Tol(x) == HI + Abs(x) \div 20000

\* the time stamps of the steps and the end of the last one, and the step lengths
RECURSIVE StampAt(_, _)
StampAt(cs, i) == IF i = 1 THEN cs.t0 ELSE StampAt(cs, i - 1) + cs.dt[i - 1]
TimeBad(cs, tr) == (IF tr.tm = [i \in 1..(cs.T + 1) |-> StampAt(cs, i)] THEN {} ELSE {"C17:reported_time"})
                   \cup (IF tr.dtm = cs.dt THEN {} ELSE {"C17:reported_step_lengths"})

StartOf(cs, tr) == InitState(cs, tr.sz, tr.c0)
StartBad(cs, tr) ==
  TimeBad(cs, tr) \cup InitBad(cs, tr.sz, tr.c0)
  \cup (UNION {IF Given(tr.inv[i]) /\ tr.inv[i] # (IF tr.sz[i] > 0 THEN 1 ELSE 0) THEN {"C10:invested_flag"} ELSE {} : i \in DOMAIN tr.sz})

\* step t of the reported result from state st: [bad, st]; goes on from the reported contents
TraceStep(cs, tr, st, t) ==
  LET r  == StepEval(cs, tr.sz, st, t, tr.x[t], tr.onf[t], tr.onc[t], tr.ei[t], tr.eo[t])
         b  == r.bad
          \* status: on (reported) although (almost exactly) zero
          \cup (UNION {IF tr.onf[t][f] = 1 /\ tr.zero[t][f] = 1 /\ cs.flows[f].onoff = 1 THEN {"C07:on_but_zero"} ELSE {} : f \in DOMAIN cs.flows})
          \cup (UNION {IF tr.onc[t][i] = 1 /\ tr.itz[t][i] = 2 THEN {"C07:on_but_zero"}
                        ELSE IF tr.onc[t][i] = 0 /\ tr.itz[t][i] = 0 THEN {"C07:off_but_flowing"} ELSE {} : i \in DOMAIN cs.onoffs})
          \cup (UNION {Rep("C05:reported_content", r.st.c[s], tr.c[t][s], Tol(r.st.c[s])) : s \in DOMAIN cs.stors})
          \cup (UNION {Rep("C05:reported_net_discharge", tr.x[t][cs.stors[s].dis] - tr.x[t][cs.stors[s].ch], tr.nd[t][s], HI) : s \in DOMAIN cs.stors})
          \cup (UNION {Rep("C13:reported_operation_of_step", r.opt[e], tr.opt[t][e], Tol(r.opt[e])) : e \in DOMAIN cs.effs})
          \cup (UNION {IF Given(tr.son[t][i]) /\ tr.son[t][i] # r.st.it[i].nst - st.it[i].nst THEN {"C09:reported_start"} ELSE {} : i \in DOMAIN cs.onoffs})
          \cup (UNION {IF Given(tr.soff[t][i]) /\ tr.soff[t][i] # r.st.it[i].nsp - st.it[i].nsp THEN {"C09:reported_stop"} ELSE {} : i \in DOMAIN cs.onoffs})
          \cup (UNION {IF Given(tr.run[t][i]) THEN Rep("C08:reported_running_time", r.st.it[i].run, tr.run[t][i], 1) ELSE {} : i \in DOMAIN cs.onoffs})
          \cup (UNION {IF Given(tr.idle[t][i]) THEN Rep("C08:reported_idle_time", r.st.it[i].idle, tr.idle[t][i], 1) ELSE {} : i \in DOMAIN cs.onoffs})
     IN [bad |-> b, st |-> [r.st EXCEPT !.c = [s \in DOMAIN cs.stors |-> IF Abs(r.st.c[s] - tr.c[t][s]) <= Tol(r.st.c[s]) THEN r.st.c[s] ELSE tr.c[t][s]]]]

\* the end of the horizon: totals
\* more: further penalties (see AggTrace)
EndBadWith(cs, tr, st, more) ==
  \* where a size lies on the joint of two segments with different effects the reported value is taken
  LET iv == IF "AMBIG" \in InvBad(cs, tr.sz) THEN tr.iv ELSE InvTotals(cs, tr.sz)
         end == (FinalBad(cs, tr.sz, tr.c0, st)
            \cup (UNION {Rep("C02:reported_flow_hours", st.fh[f], tr.fh[f], Tol(st.fh[f])) : f \in DOMAIN cs.flows})
            \cup (UNION {IF Given(tr.onm[i]) THEN Rep("C07:reported_on_hours", st.it[i].onmin, tr.onm[i], 1) ELSE {} : i \in DOMAIN cs.onoffs})
            \cup (UNION {IF Given(tr.nst[i]) /\ st.it[i].nst # tr.nst[i] THEN {"C09:reported_starts"} ELSE {} : i \in DOMAIN cs.onoffs})
            \cup (UNION {Rep("C13:reported_operation", st.op[e], tr.op[e], Tol(st.op[e])) : e \in DOMAIN cs.effs})
            \cup (UNION {Rep("C11:reported_invest", iv[e], tr.iv[e], Tol(iv[e])) : e \in DOMAIN cs.effs})
            \cup (UNION {Rep("C13:reported_total", st.op[e] + iv[e], tr.tot[e], Tol(st.op[e]) + Tol(iv[e])) : e \in DOMAIN cs.effs})
            \cup Rep("C01:reported_penalty", st.pen + more, tr.pen, Tol(st.pen))
            \cup Rep("C15:reported_objective", st.op[cs.obj] + iv[cs.obj], tr.obj, Tol(st.op[cs.obj]) + Tol(iv[cs.obj]) + Tol(st.pen)))
     IN end
EndBad(cs, tr, st) == EndBadWith(cs, tr, st, 0)
=============================================================================
