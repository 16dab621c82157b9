"""Direction A (specification -> code): explore the cases with TLC, replay every behaviour in the
optimisation problem flixOpt builds for the same system."""
import json
import os
import random
import tempfile
import traceback

import numpy as np

import gen
import moves as mv
import tlc
import windows
from tocase import NONE, flow_list, is_input, to_case

DELTA = 0.002
WIDE = 0.03


def make_case(D, rng, K, nsz, nc0):
    cs = to_case(D)
    cs['szs'], cs['c0s'] = mv.candidates(cs, rng, nsz, nc0)
    cs['moves'] = mv.moves(D, cs, cs['szs'], rng, K)
    return cs


def tlc_explore(cases, module='Explore', timeout=800, env=None):
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(cases, f)
    try:
        recs, stats, _ = tlc.run(module, dict(CASES=f.name, **(env or {})), timeout=timeout)
    finally:
        os.unlink(f.name)
    by = [[] for _ in cases]
    for r in recs:
        by[r['ci'] - 1].append(r)
    return by, stats


class Real:
    """flixOpt's optimisation problem for D, with the names of the case attached"""

    def __init__(self, D, cs, system_model=None, built=None):
        import build
        import flixOpt as fx
        import milp
        self.D, self.cs = D, cs
        if system_model is None:
            Df, idx = windows.origin(D)
            built = build.build(Df)
            calc = fx.FullCalculation('c', built.fs, time_indices=idx)
            calc.do_modeling()
            system_model = calc.system_model
            self.calc = calc
        self.built = built
        self.P = P = milp.Problem(system_model)
        T = cs['T']
        self.flow = []
        self.items = []       # results path of each on/off item
        self.fpath = []       # results path of each flow
        self.spath = []       # ... storage
        self.invcol = []
        self.stor = []
        sizepath = []
        for ci, comp in enumerate(D['comps']):
            cp = ('Components', comp['label'])
            for fi, fl in enumerate(comp['flows']):
                p = cp + (fl['label'],)
                self.flow.append(P.colsof(p + ('flow_rate',)))
                self.fpath.append(p)
                if isinstance(fl['size'], dict) and fl['size']['kind'] == 'inv':
                    sizepath.append(p + ('Investment', 'size'))
                if fl['onoff'] is not None:
                    self.items.append(p + ('OnOff',))
            if comp.get('onoff') is not None:
                self.items.append(cp + ('OnOff',))
            if comp['cls'] == 'Storage':
                self.stor.append(P.colsof(cp + ('charge_state',)))
                self.spath.append(cp)
                if isinstance(comp['cap'], dict):
                    sizepath.append(cp + ('Investment', 'size'))
        self.sizepath = sizepath
        self.invcol = [P.col(p) for p in sizepath]
        self.eff = []
        for e in D['effs']:
            p = ('Effects', e['label'])
            self.eff.append((P.col(p + ('operation', 'operation_sum')), P.col(p + ('invest', 'invest_sum')), P.col(p + ('all', 'all_sum'))))
        self.effts = [P.colsof(('Effects', e['label'], 'operation', 'operation_sum_TS')) for e in D['effs']]

    def pins(self, rec, upto=None):
        cs = self.cs
        pins = {}
        for i, v in enumerate(cs['szs'][rec['s'] - 1]):
            pins[self.invcol[i]] = v / 1e4
        for i, v in enumerate(cs['c0s'][rec['c'] - 1]):
            pins[self.stor[i][0]] = v / 1e4
        for t, m in enumerate(rec['m']):
            x = cs['moves'][t][m - 1]
            for f, v in enumerate(x):
                pins[self.flow[f][t]] = v / 1e4
        return pins

    def vectors(self, rec):
        return [self.cs['moves'][t][m - 1] for t, m in enumerate(rec['m'])]

    def check_illegal(self, rec):
        """None if excluded by the problem, else a discrepancy"""
        st, _, _ = self.P.solve(self.pins(rec), objective=False)
        if st == 'infeasible':
            return None
        return dict(what='forbidden behaviour admitted', kind=rec['k'], clauses=sorted(c for c in rec['bad'] if c != 'AMBIG'), status=st)

    def check_legal(self, rec):
        cs = self.cs
        pins = self.pins(rec)
        st, obj, x = self.P.solve(pins)
        tol, rel = 0.02, 2e-5
        if st == 'infeasible':
            for j in list(pins):
                pass
            big = {j: v for j, v in pins.items()}
            st, obj, x = self._boxed(big)
            tol, rel = 0.25, 1e-3
            if st == 'infeasible' and self._boxed(big, WIDE)[0] != 'infeasible':
                # at the very edge of a limit (the specification allows LO beyond it): not judged
                return None
            if st == 'infeasible':
                return dict(what='allowed behaviour excluded', kind='L', clauses=[])
        if st != 'optimal':
            return dict(what='allowed behaviour: solver status ' + st, kind='L', clauses=[])
        out = []

        def cmp(name, spec, real, t=tol):
            if abs(spec - real) > t + rel * abs(spec):
                out.append((name, round(spec, 4), round(float(real), 4)))
        ps = cs['penscale']
        for i, e in enumerate(self.D['effs']):
            cmp('operation of ' + e['label'], rec['op'][i] / 1e4, x[self.eff[i][0]])
            cmp('invest of ' + e['label'], rec['iv'][i] / 1e4, x[self.eff[i][1]])
            cmp('sum of ' + e['label'], (rec['op'][i] + rec['iv'][i]) / 1e4, x[self.eff[i][2]])
            for t in range(cs['T']):
                cmp('operation of %s at step %d' % (e['label'], t), rec['opt'][t][i] / 1e4, x[self.effts[i][t]])
        cmp('objective', (rec['obj'] + rec['pen'] * ps) / 1e4, obj, tol + 0.002 * ps)
        for s, cols in enumerate(self.stor):
            for t in range(cs['T']):
                cmp('charge state of storage %d after step %d' % (s, t), rec['ct'][t][s] / 1e4, x[cols[t + 1]])
        self.last = rec
        T, P = cs['T'], self.P

        def has(p):
            try:
                return P.colsof(p)
            except KeyError:
                return None
        vec = self.vectors(rec)
        for f, p in enumerate(self.fpath):
            cmp('flow hours of ' + '/'.join(p), rec['fh'][f] / 1e4, x[P.col(p + ('sumFlowHours',))])
        n = 0
        for ci, comp in enumerate(self.D['comps']):
            if comp['cls'] == 'Storage':
                cols = P.colsof(('Components', comp['label'], 'netto_discharge'))
                for t in range(T):
                    cmp('net discharge of %s at %d' % (comp['label'], t), (vec[t][n + 1] - vec[t][n]) / 1e4, x[cols[t]])
            n += len(comp['flows'])
        for i, p in enumerate(self.sizepath):
            c = has(p[:-1] + ('isInvested',))
            if c:
                cmp('invested of ' + '/'.join(p), int(cs['szs'][rec['s'] - 1][i] > 0), x[c[0]], 0.1)
        for i, p in enumerate(self.items):
            nm = '/'.join(p)
            for t, col in enumerate(P.colsof(p + ('on',))):
                cmp('status of %s at %d' % (nm, t), rec['oi'][t][i], x[col], 0.1)
            cmp('on hours of ' + nm, rec['onm'][i] / 60, x[P.col(p + ('totalOnHours',))], 0.01)
            for name, vals in (('off', [1 - r[i] for r in rec['oi']]),
                               ('consecutiveOnHours', [r[i] / 60 for r in rec['run']]),
                               ('consecutiveOffHours', [r[i] / 60 for r in rec['idle']]),
                               ('switchOn', [b[i] - a[i] for a, b in zip([[0] * 99] + rec['nsts'], rec['nsts'])]),
                               ('switchOff', [b[i] - a[i] for a, b in zip([[0] * 99] + rec['nsp'], rec['nsp'])])):
                for t, col in enumerate(has(p + (name,)) or []):
                    cmp('%s of %s at %d' % (name, nm, t), vals[t], x[col], 0.02)
            c = has(p + ('nrSwitchOn',))
            if c:
                cmp('starts of ' + nm, rec['nst'][i], x[c[0]], 0.1)
        for b, bus in enumerate(self.D['buses']):
            if bus['pen'] is None or not any(f['bus'] == b + 1 for f in cs['flows']):
                continue
            for k, name in (('ei', 'excess_input'), ('eo', 'excess_output')):
                for t, col in enumerate(P.colsof(('Buses', bus['label'], name))):
                    cmp('%s of %s at %d' % (name, bus['label'], t), rec[k][t][b] / 1e4, x[col])
        cmp('penalty', rec['pen'] * ps / 1e4, x[P.col(('Effects', 'penalty', 'penalty_sum'))], tol + 0.002 * ps)
        if out:
            return dict(what='allowed behaviour valued differently', kind='L', clauses=[], diffs=out[:8])
        return None

    def check_wrong_status(self, rec, rng, n=2):
        """a behaviour determines every status, start and count: any other value must be impossible"""
        out = []
        if not self.items:
            return out
        P, pins0 = self.P, self.pins(rec)
        if P.solve(pins0, objective=False)[0] != 'optimal':
            return out
        for _ in range(n):
            i = rng.randrange(len(self.items))
            t = rng.randrange(self.cs['T'])
            p = self.items[i]
            what = rng.choice(['on', 'on', 'switchOn', 'switchOff', 'nrSwitchOn'])
            try:
                cols = P.colsof(p + (what,))
            except KeyError:
                continue
            before = rec['oi'][t - 1][i] if t else rec['was'][i]
            if what == 'on':
                wrong = 1 - rec['oi'][t][i]
            elif what == 'switchOn':
                wrong = 0 if rec['oi'][t][i] > before else 1
            elif what == 'switchOff':
                wrong = 0 if rec['oi'][t][i] < before else 1
            else:
                t = 0
                wrong = rec['nst'][i] + rng.choice([1, -1] if rec['nst'][i] else [1])
            pins = dict(pins0)
            pins[cols[t]] = wrong
            if P.solve(pins, objective=False)[0] != 'infeasible':
                c = 'C07:wrong_status' if what == 'on' else 'C09:wrong_starts'
                out.append(dict(what='forbidden behaviour admitted', kind='W', clauses=[c], status='%s of %s at %d = %s' % (what, '/'.join(p), t, wrong)))
        return out

    def _boxed(self, pins, delta=DELTA):
        """the rates of the behaviour are rounded to 1e-4: allow that much freedom around them"""
        P = self.P
        flowcols = {c for cols in self.flow for c in cols} | {cols[0] for cols in self.stor}
        exact = {j: v for j, v in pins.items() if j not in flowcols or v == 0}
        width = {}
        if delta == WIDE:
            # a cyclic content decays by itself: what it misses at the end is only a part of what it is off at the start
            for q, cols in zip(self.cs['stors'], self.stor):
                if q['cyc'] and any(q['loss']):
                    left = 1.0
                    for t in range(self.cs['T']):
                        left *= max(0.0, 1 - q['loss'][t] / 1000 * self.cs['dt'][t] / 60)
                    width[cols[0]] = delta / max(0.005, 1 - left)
        for j, v in pins.items():
            if j not in exact:
                d = width.get(j, delta)
                P.h.changeColBounds(j, max(P.lo[j], v - d), max(max(P.lo[j], v - d), min(P.up[j], v + d)))
        try:
            return P.solve(exact)
        finally:
            for j in pins:
                P.h.changeColBounds(j, P.lo[j], P.up[j])


def replay(D, cs, recs, rng, max_legal=40, max_per_clause=12, real=None):
    """Replays (a sample of) the behaviours of one case. Returns (discrepancies, counts)"""
    cnt = dict(legal=0, forbidden=0, ambiguous=0, legal_total=0, forbidden_total=0)
    clauses = {}
    dis = []
    legal = [r for r in recs if r['k'] == 'L']
    ill = {}
    for r in recs:
        if r['k'] != 'L':
            if 'AMBIG' in r['bad']:
                cnt['ambiguous'] += 1
                # unclear only in addition to a definite violation: still definitely forbidden
                if len(r['bad']) == 1:
                    continue
            key = tuple(sorted(c for c in r['bad'] if c != 'AMBIG'))
            ill.setdefault(key, []).append(r)
            cnt['forbidden_total'] += 1
    cnt['legal_total'] = len(legal)
    try:
        real = real or Real(D, cs)
    except Exception:
        if D.get('dup') and 'AssertionError' in traceback.format_exc():
            cnt['rejected'] = 1     # refused with an error: nothing is lost silently
            return [], cnt, clauses
        return [dict(what='the system could not be modelled', kind='E', clauses=[], error=traceback.format_exc()[-1500:])], cnt, clauses
    if len(legal) > max_legal:
        legal = rng.sample(legal, max_legal)
    for r in legal:
        cnt['legal'] += 1
        d = real.check_legal(r)
        if d:
            dis.append(dict(d, rec=r))
        else:
            for d in real.check_wrong_status(r, rng):
                dis.append(dict(d, rec=r))
            cnt['status'] = cnt.get('status', 0) + 1
    for key, rs in ill.items():
        # behaviours violating a single clause are the sharpest tests: take more of them
        n = max_per_clause if len(key) == 1 else max(2, max_per_clause // 4)
        for r in rng.sample(rs, n) if len(rs) > n else rs:
            cnt['forbidden'] += 1
            for c in key:
                clauses[c] = clauses.get(c, 0) + 1
            if len(key) == 1:
                clauses[key[0] + '!'] = clauses.get(key[0] + '!', 0) + 1
            d = real.check_illegal(r)
            if d:
                dis.append(dict(d, rec=r))
    return dis, cnt, clauses
