"""The optimisation problem flixOpt builds, as a set of (in)equalities that can be queried.

tags():   which column of the problem is which reported quantity - read off the structure of the
          results dictionary (the user-visible names), not off private attributes.
Problem:  the problem in HiGHS; pin() fixes reported quantities and asks for feasibility/optimum.
"""
import os
import tempfile

import highspy
import numpy as np
import pyomo.environ as pyo

INF = highspy.kHighsInf


def pyomo_model(system_model):
    return system_model.model.model


def export(m):
    """ConcreteModel -> (highspy.Highs, {id(vardata): column})"""
    from pyomo.repn import generate_standard_repn
    h = highspy.Highs()
    h.setOptionValue('output_flag', False)
    h.setOptionValue('threads', 1)
    h.setOptionValue('presolve', 'off')     # see jobs.no_presolve
    lp = highspy.HighsLp()
    cols, lo, up, integ, fixed = {}, [], [], [], []
    for v in m.component_data_objects(pyo.Var, descend_into=True):
        cols[id(v)] = len(lo)
        if v.fixed:
            lo.append(float(v.value))
            up.append(float(v.value))
        else:
            lo.append(-INF if v.lb is None else float(v.lb))
            up.append(INF if v.ub is None else float(v.ub))
        integ.append(highspy.HighsVarType.kInteger if v.is_integer() else highspy.HighsVarType.kContinuous)
    n = len(lo)
    starts, idx, vals, rlo, rup = [0], [], [], [], []
    empty_bad = False
    for c in m.component_data_objects(pyo.Constraint, active=True, descend_into=True):
        rep = generate_standard_repn(c.body, compute_values=True, quadratic=False)
        assert rep.is_linear(), c.name
        l = -INF if c.lower is None else float(pyo.value(c.lower))
        u = INF if c.upper is None else float(pyo.value(c.upper))
        const = float(rep.constant)
        fixc = 0.0
        row = {}
        for coef, v in zip(rep.linear_coefs, rep.linear_vars):
            row[cols[id(v)]] = row.get(cols[id(v)], 0.0) + float(coef)
        for j, coef in row.items():
            idx.append(j)
            vals.append(coef)
        starts.append(len(idx))
        rlo.append(l - const if l > -INF else l)
        rup.append(u - const if u < INF else u)
    obj = next(m.component_data_objects(pyo.Objective, active=True))
    rep = generate_standard_repn(obj.expr, compute_values=True, quadratic=False)
    cost = np.zeros(n)
    for coef, v in zip(rep.linear_coefs, rep.linear_vars):
        cost[cols[id(v)]] += float(coef)
    assert obj.sense == pyo.minimize
    lp.num_col_, lp.num_row_ = n, len(rlo)
    lp.col_cost_ = cost
    lp.col_lower_, lp.col_upper_ = np.array(lo), np.array(up)
    lp.row_lower_, lp.row_upper_ = np.array(rlo), np.array(rup)
    lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
    lp.a_matrix_.start_ = np.array(starts, dtype=np.int32)
    lp.a_matrix_.index_ = np.array(idx, dtype=np.int32)
    lp.a_matrix_.value_ = np.array(vals, dtype=float)
    lp.integrality_ = integ
    lp.offset_ = float(rep.constant)
    h.passModel(lp)
    return h, cols, np.array(lo), np.array(up)


def tags(sm):
    """results() with every number replaced by (list of) pyomo variable data"""
    saved = [(v, v.result) for v in sm.variables]
    reg = []
    old_obj = sm.result_of_objective
    try:
        for v in sm.variables:
            comp = sm.model.mapping[v]
            data = [comp[i] for i in comp]
            ids = np.arange(len(reg), len(reg) + len(data), dtype=float)
            reg.extend(data)
            v.result = ids if len(data) > 1 else ids[0]
        sm.result_of_objective = 0.0
        res = sm.results()

        def conv(x):
            if isinstance(x, dict):
                return {k: conv(y) for k, y in x.items()}
            if isinstance(x, np.ndarray):
                return [reg[int(i)] for i in x]
            return [reg[int(x)]]
        return {k: conv(res[k]) for k in ('Components', 'Effects', 'Buses', 'Others') if k in res}
    finally:
        for v, r in saved:
            v.result = r
        sm.result_of_objective = old_obj


class Problem:
    def __init__(self, sm):
        self.h, self.cols, self.lo, self.up = export(pyomo_model(sm))
        self.cost = np.array(self.h.getLp().col_cost_)
        self._with_cost = True
        self.tree = tags(sm)
        self.n = len(self.lo)

    def col(self, path, i=0):
        x = self.tree
        for k in path:
            x = x[k]
        return self.cols[id(x[i])]

    def colsof(self, path):
        x = self.tree
        for k in path:
            x = x[k]
        return [self.cols[id(v)] for v in x]

    def solve(self, pins, delta=0.0, objective=True):
        """pins: {column: value}.  Returns (status, objective, solution)"""
        if objective != self._with_cost:
            self.h.changeColsCost(self.n, np.arange(self.n, dtype=np.int32), self.cost if objective else np.zeros(self.n))
            self._with_cost = objective
        touched = list(pins)
        bad = False
        for j, v in pins.items():
            l, u = max(self.lo[j], v - delta), min(self.up[j], v + delta)
            if l > u:
                if l - u > 1e-6:
                    bad = True
                    break
                l = u = (v if delta == 0 else (l + u) / 2)
            self.h.changeColBounds(j, l, u)
        try:
            if bad:
                return 'infeasible', None, None
            self.h.clearSolver()
            self.h.run()
            st = self.h.getModelStatus()
            S = highspy.HighsModelStatus
            if st == S.kOptimal:
                return 'optimal', self.h.getInfo().objective_function_value, np.array(self.h.getSolution().col_value)
            if st in (S.kInfeasible, S.kUnboundedOrInfeasible):
                return 'infeasible', None, None
            if st == S.kUnbounded:
                return 'unbounded', None, None
            return str(st), None, None
        finally:
            for j in touched:
                self.h.changeColBounds(j, self.lo[j], self.up[j])
