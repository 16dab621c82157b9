"""What a calculation of a fresh system is and gives: the reference the others are compared with.

A problem is described by names only (the places of its quantities in the results dictionary), so that
problems built at different times can be compared and solutions transferred."""
import os
import pickle
import tempfile
import traceback

import highspy
import numpy as np

import milp


def forked(fn, *args, seconds=300):
    """fn(*args) in a forked child: nothing it does is left behind.  Returns ('ok', value) or ('error', text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', fn(*args))
            except BaseException:
                out = ('error', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return 'error', 'the child process ended without an answer'
    return pickle.loads(data)


def flat(tree, path=()):
    if isinstance(tree, dict):
        for k, v in tree.items():
            yield from flat(v, path + (str(k),))
    else:
        yield path, tree


class Canon:
    """a problem by names: cols {name: (lower, upper, integer, cost)}, rows: sorted list, offset"""

    def __init__(self, sm):
        h, cols, lo, up = milp.export(milp.pyomo_model(sm))
        lp = h.getLp()
        name = {}
        for path, vs in flat(milp.tags(sm)):
            for i, v in enumerate(vs):
                name.setdefault(cols[id(v)], '/'.join(path) + '[%d]' % i)
        for j in range(len(lo)):
            name.setdefault(j, '?%d' % j)
        rnd = lambda x: float('%.9g' % x)
        integ = lp.integrality_
        self.cols = {name[j]: (rnd(lo[j]), rnd(up[j]), int(integ[j] == highspy.HighsVarType.kInteger), rnd(lp.col_cost_[j])) for j in range(len(lo))}
        self.rows = []
        st, ix, va = lp.a_matrix_.start_, lp.a_matrix_.index_, lp.a_matrix_.value_
        entries = [[] for _ in range(lp.num_row_)]
        if lp.a_matrix_.format_ == highspy.MatrixFormat.kColwise:
            for j in range(lp.num_col_):
                for k in range(st[j], st[j + 1]):
                    entries[ix[k]].append((name[j], rnd(va[k])))
        else:
            for r in range(lp.num_row_):
                for k in range(st[r], st[r + 1]):
                    entries[r].append((name[ix[k]], rnd(va[k])))
        for r in range(lp.num_row_):
            terms = sorted(e for e in entries[r] if e[1] != 0)
            l, u = rnd(lp.row_lower_[r]), rnd(lp.row_upper_[r])
            if terms and terms[0][1] < 0:           # one orientation
                terms = [(n, -c) for n, c in terms]
                l, u = -u, -l
            self.rows.append((tuple(terms), l + 0.0, u + 0.0))
        self.rows.sort()
        self.offset = rnd(lp.offset_)

    def same(self, other):
        """None, or what differs"""
        if self.cols.keys() != other.cols.keys():
            a = sorted(self.cols.keys() ^ other.cols.keys())
            return 'quantities differ: %s' % ', '.join(a[:3])
        for n in self.cols:
            if any(not close(a, b) for a, b in zip(self.cols[n], other.cols[n])):
                return 'bounds or costs of %s differ: %s / %s' % (n, self.cols[n], other.cols[n])
        if len(self.rows) != len(other.rows):
            return '%d / %d constraints' % (len(self.rows), len(other.rows))
        ra, rb = list(self.rows), list(other.rows)
        for x, y in zip(ra, rb):
            if [n for n, _ in x[0]] != [n for n, _ in y[0]] or any(not close(p, q) for (_, p), (_, q) in zip(x[0], y[0])) \
                    or not close(x[1], y[1]) or not close(x[2], y[2]):
                return 'a constraint differs: %s / %s' % (str(x)[:200], str(y)[:200])
        return None if close(self.offset, other.offset) else 'constants differ'

    def problem(self):
        return CanonProblem(self)


def close(a, b):
    return a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


class CanonProblem:
    def __init__(self, c):
        self.c = c
        self.names = sorted(c.cols)
        self.at = {n: j for j, n in enumerate(self.names)}
        lp = highspy.HighsLp()
        v = [c.cols[n] for n in self.names]
        self.lo, self.up = np.array([x[0] for x in v]), np.array([x[1] for x in v])
        self.cost = np.array([x[3] for x in v])
        lp.num_col_, lp.num_row_ = len(v), len(c.rows)
        lp.col_cost_, lp.col_lower_, lp.col_upper_ = self.cost, self.lo, self.up
        lp.row_lower_, lp.row_upper_ = np.array([r[1] for r in c.rows]), np.array([r[2] for r in c.rows])
        st, ix, va = [0], [], []
        for r in c.rows:
            for n, k in r[0]:
                ix.append(self.at[n])
                va.append(k)
            st.append(len(ix))
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.start_, lp.a_matrix_.index_, lp.a_matrix_.value_ = np.array(st, dtype=np.int32), np.array(ix, dtype=np.int32), np.array(va, dtype=float)
        lp.integrality_ = [highspy.HighsVarType.kInteger if x[2] else highspy.HighsVarType.kContinuous for x in v]
        lp.offset_ = c.offset
        self.h = highspy.Highs()
        self.h.setOptionValue('output_flag', False)
        self.h.setOptionValue('threads', 1)
        self.h.setOptionValue('mip_rel_gap', 1e-7)
        # no solution of its own making: the default tolerances allow e.g. 1e-6 of a start-up
        self.h.setOptionValue('mip_feasibility_tolerance', 1e-9)
        self.h.setOptionValue('primal_feasibility_tolerance', 1e-9)
        self.h.passModel(lp)

    def optimum(self):
        self.h.run()
        st = self.h.getModelStatus()
        S = highspy.HighsModelStatus
        if st == S.kOptimal:
            return self.h.getInfo().objective_function_value
        if st in (S.kInfeasible, S.kUnboundedOrInfeasible):
            return None
        raise ArithmeticError('the reference solver ended with %s' % st)

    def reported(self, res):
        """the reported values of the variables (nan: not reported)"""
        x = np.full(len(self.names), np.nan)
        for path, v in flat({k: v for k, v in res.items() if k in ('Components', 'Effects', 'Buses', 'Others')}):
            try:
                a = np.atleast_1d(np.asarray(v, dtype=float))
            except (TypeError, ValueError):
                continue
            for i, y in enumerate(a):
                j = self.at.get('/'.join(path) + '[%d]' % i)
                if j is not None:
                    x[j] = y
        return x

    def amount(self, res):
        """the objective of the reported values"""
        return float(self.cost @ self.reported(res)) + self.c.offset

    def violation(self, res, tol=1e-4):
        """None if the reported results are a solution of this problem; else what is wrong with them"""
        x = self.reported(res)
        if np.isnan(x).any():
            return 'no value of %s' % self.names[int(np.argmax(np.isnan(x)))]
        for j in range(len(x)):
            t = tol * max(1.0, abs(x[j]))
            if x[j] < self.lo[j] - t or x[j] > self.up[j] + t:
                return '%s = %g is not in [%g, %g]' % (self.names[j], x[j], self.lo[j], self.up[j])
        for terms, l, u in self.c.rows:
            v = [k * x[self.at[n]] for n, k in terms]
            s = sum(v)
            t = tol * max([1.0] + [abs(y) for y in v])
            if s < l - t or s > u + t:
                return 'not satisfied: %s in [%g, %g]: %g' % (' + '.join('%g %s' % (k, n) for n, k in terms[:5]), l, u, s)
        return None

    def value(self, res):
        return float(res['Objective'])
