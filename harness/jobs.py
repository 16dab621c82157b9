"""Work packages of the checks.  Each returns a dict: discrepancies, counts, samples."""
import copy
import json
import random
import traceback

import numpy as np

import conform
import explore
import families
import gen
import observe
import tocase
import windows
from tocase import NONE

KS = {2: 9, 3: 6, 4: 4}


def fx():
    import flixOpt
    return flixOpt


def no_presolve():
    """The presolve of the installed HiGHS (1.15.1) declares some feasible problems infeasible (seen with
    exactly feasible points); whatever options the code under test passes, it is switched off."""
    from pyomo.contrib.appsi.solvers import Highs
    if not getattr(Highs, 'without_presolve', False):
        get, put = Highs.highs_options.fget, Highs.highs_options.fset
        Highs.highs_options = property(get, lambda self, val: put(self, {**val, 'presolve': 'off'}))
        Highs.without_presolve = True


def solver(gap=1e-6):
    no_presolve()
    return fx().solvers.HighsSolver(mip_gap=gap, time_limit_seconds=60, solver_output_to_console=False, threads=1)


def new_out():
    return dict(dis=[], counts={}, states=0, transitions=0, traces=0, clauses={}, samples=[])


def add(out, key, n=1):
    out['counts'][key] = out['counts'].get(key, 0) + n


def merge(a, b):
    for k in ('states', 'transitions', 'traces'):
        a[k] += b[k]
    a['dis'] += b['dis']
    for k in ('counts', 'clauses'):
        for n, v in b[k].items():
            a[k][n] = a[k].get(n, 0) + v
    if len(a['samples']) < 6:
        a['samples'] += b['samples'][:1]
    return a


def split(fam):
    fam = dict(fam)
    extra = {k: fam.pop(k) for k in ('tight', 'lims', 'K', 'window') if k in fam}
    return fam, extra


# ---------------------------------------------------------------- limits on totals
def tighten(D, cs, recs, rng, what):
    """limits just at, below and above totals the behaviours of the unlimited system have"""
    L = [r for r in recs if r['k'] == 'L']
    if not L:
        return None
    D = copy.deepcopy(D)
    ref = rng.choice(L)

    def lim(vals, mine, upper):
        vals = sorted(set(vals))
        u = rng.random()
        i = vals.index(mine)
        if rng.random() < 0.1:
            return 0
        if u < 0.35 or len(vals) == 1:
            v = mine + (30 if upper else -30)
        elif u < 0.6:
            # between two neighbouring totals
            j = i + (1 if upper else -1)
            v = (mine + vals[j]) // 2 if 0 <= j < len(vals) else mine + (30 if upper else -30)
        else:
            v = mine + (-600 if upper else 600) if rng.random() < 0.35 else mine + (30 if upper else -30)
        return v / 1e4
    if what == 'fh':
        fls = [fl for comp in D['comps'] for fl in comp['flows']]
        for f in rng.sample(range(len(fls)), min(len(fls), rng.choice([1, 1, 2]))):
            vals = [r['fh'][f] for r in L]
            for key, up in (('fhmax', True), ('fhmin', False)):
                if rng.random() < 0.7:
                    fls[f][key] = max(0, lim(vals, ref['fh'][f], up))
        return D
    for e in rng.sample(range(len(D['effs'])), rng.choice([1, 1, 2]) if len(D['effs']) > 1 else 1):
        ef = D['effs'][e]
        for kind, get in (('op', lambda r: r['op'][e]), ('inv', lambda r: r['iv'][e]), ('tot', lambda r: r['op'][e] + r['iv'][e])):
            if rng.random() < 0.45:
                up = rng.random() < 0.6
                ef[('max' if up else 'min') + kind] = lim([get(r) for r in L], get(ref), up)
                if rng.random() < 0.3:
                    ef[('min' if up else 'max') + kind] = lim([get(r) for r in L], get(ref), not up)
        if rng.random() < 0.5:
            up = rng.random() < 0.6
            T = D['T']
            if rng.random() < 0.5:
                v = [round(lim([r['opt'][t][e] for r in L], ref['opt'][t][e], up) / D['dt'][t], 4) for t in range(T)]
            else:
                q = [r['opt'][t][e] / D['dt'][t] / 1e4 for r in L for t in range(T)]
                mine = [ref['opt'][t][e] / D['dt'][t] / 1e4 for t in range(T)]
                v = round(max(mine) + 0.01 if up else min(mine) - 0.01, 4)
                if rng.random() < 0.4:
                    v = round(rng.choice(q) + rng.choice([0.011, -0.06]), 4)
            ef['maxph' if up else 'minph'] = v
    return D


# ---------------------------------------------------------------- direction A
def explore_job(P, fam, seed, n, deep=False):
    fam, ex = split(fam)
    rng = random.Random(seed)
    out = new_out()
    Ds = [gen.Gen(rng, **fam).system() for _ in range(n)]
    if ex.get('window'):
        Ds = [windows.cut(D, windows.choose(D, rng)) for D in Ds]
    nsz, nc0 = 2, 2
    if any(k in fam and fam[k] for k in ('inv', 'storinv')):
        nsz = 3
    cases = [explore.make_case(D, rng, ex.get('K') or KS.get(D['T'], 4), nsz if D['T'] < 4 else 2, nc0) for D in Ds]
    if 'tight' in ex:
        by, st = explore.tlc_explore(cases)
        out['states'] += st['states']
        out['transitions'] += st['transitions']
        D2, c2 = [], []
        for D, cs, recs in zip(Ds, cases, by):
            for _ in range(2):
                d = tighten(D, cs, recs, rng, ex['tight'])
                if d is None:
                    break
                c = tocase.to_case(d)
                c.update(szs=cs['szs'], c0s=cs['c0s'], moves=cs['moves'])
                D2.append(d)
                c2.append(c)
        Ds, cases = D2, c2
    if not Ds:
        return out
    by, st = explore.tlc_explore(cases)
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    for i, (D, cs, recs) in enumerate(zip(Ds, cases, by)):
        dis, cnt, cl = explore.replay(D, cs, recs, rng, *((200, 60) if deep else ()))
        for k, v in cnt.items():
            add(out, k, v)
        add(out, 'systems')
        out['traces'] += cnt['legal'] + cnt['forbidden']
        for k, v in cl.items():
            out['clauses'][k] = out['clauses'].get(k, 0) + v
        if not out['samples'] and cnt['legal']:
            r = rng.choice([r for r in recs if r['k'] == 'L'])
            out['samples'].append(dict(system=D, behaviour=dict(rates=[cs['moves'][t][m - 1] for t, m in enumerate(r['m'])], record=r)))
        for d in dis:
            if families.counts(d, P):
                out['dis'].append(dict(kind='explore', D=D, cs=cs, d=d, what=describe(d)))
            else:
                add(out, 'seen_of_other_properties')
    return out


def describe(d):
    s = d['what']
    if d.get('clauses'):
        s += ' ' + ','.join(str(c) for c in d['clauses'])
    if d.get('diffs'):
        s += ' ' + '; '.join('%s is %s, should be %s' % (x[0], x[2], x[1]) for x in d['diffs'][:3])
    if d.get('status'):
        s += ' [%s]' % d['status']
    if d.get('error'):
        s += ' ' + d['error'].strip().splitlines()[-1][:200]
    return s


def explore_replay(P, item):
    """True if the recorded discrepancy (still) shows"""
    D, cs, d = item['D'], item['cs'], item['d']
    try:
        real = explore.Real(D, cs)
    except Exception:
        traceback.print_exc()
        return d['kind'] == 'E'
    if d['kind'] == 'E':
        return False
    r = d['rec']
    if r['k'] == 'L':
        x = real.check_legal(r)
        if x is None:
            for s in range(20):
                x = (real.check_wrong_status(r, random.Random(s), 4) or [None])[0]
                if x:
                    break
    else:
        x = real.check_illegal(r)
    if x:
        print(describe(x))
    return x is not None


# ---------------------------------------------------------------- direction B
class Infeasible(Exception):
    pass


def solve_full(D, **kw):
    import build
    Df, idx = windows.origin(D)
    B = build.build(Df)
    calc = fx().FullCalculation('c', B.fs, time_indices=idx, **kw)
    calc.do_modeling()
    try:
        calc.solve(solver())
    except Exception as e:
        raise Infeasible(repr(e))
    return calc, B


def relimit(D, cs, res, rng):
    """limits around the effects of an unlimited solution"""
    D = copy.deepcopy(D)
    for e, ef in enumerate(D['effs']):
        R = res['Effects'][ef['label']]
        o, i, a = (float(R[x][x2]) for x, x2 in (('operation', 'operation_sum'), ('invest', 'invest_sum'), ('all', 'all_sum')))
        if rng.random() < 0.6:
            k, v = rng.choice([('op', o), ('inv', i), ('tot', a)])
            up = rng.random() < 0.7
            s = abs(v) * rng.choice([0.02, 0.1, 0.3]) * rng.choice([-1, 1, 1]) + 0.01
            ef[('max' if up else 'min') + k] = round(v + (s if up else -s), 4)
        if rng.random() < 0.4:
            ts = np.atleast_1d(R['operation']['operation_sum_TS']) / np.array(D['dt'])
            up = rng.random() < 0.7
            v = max(ts) if up else min(ts)
            ef['maxph' if up else 'minph'] = round(float(v) + rng.choice([0.05, -0.05, 0.2]) * (1 if up else -1) * max(1, abs(v)), 4)
    return D


def trace_job(P, fam, seed, n):
    fam, ex = split(fam)
    rng = random.Random(seed)
    out = new_out()
    pairs, Ds = [], []
    for _ in range(n):
        D = gen.Gen(rng, **fam).system()
        if ex.get('window'):
            D = windows.cut(D, windows.choose(D, rng, 2, 6))
        cs = tocase.to_case(D)
        try:
            calc, B = solve_full(D)
            res = calc.results()
            if ex.get('lims'):
                D = relimit(D, cs, res, rng)
                cs = tocase.to_case(D)
                calc, B = solve_full(D)
                res = calc.results()
        except Infeasible:
            add(out, 'infeasible')
            continue
        except Exception:
            out['dis'].append(dict(kind='trace', D=D, what='the system could not be modelled: ' + traceback.format_exc().strip().splitlines()[-1]))
            continue
        add(out, 'solved')
        try:
            tr = observe.observe(D, cs, res)
        except observe.Missing as e:
            out['dis'].append(dict(kind='trace', D=D, what='the results lack %s' % e))
            continue
        if not observe.tractable(tr):
            add(out, 'numbers_too_large')
            continue
        pairs.append((cs, tr))
        Ds.append(D)
    bad, st = conform.tlc_traces(pairs)
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    out['traces'] += len(pairs)
    if pairs:
        out['samples'].append(dict(system=Ds[0], reported=pairs[0][1]))
    for D, (cs, tr), b in zip(Ds, pairs, bad):
        if b:
            d = dict(what='reported results break the rules', kind='T', clauses=b)
            if families.counts(d, P):
                out['dis'].append(dict(kind='trace', D=D, cs=cs, tr=tr, clauses=b, what=d['what'] + ' ' + ', '.join('%s at step %d' % (c, s) for s, c in b[:6])))
            else:
                add(out, 'seen_of_other_properties')
    return out


def trace_replay(P, item):
    D = item['D']
    cs = tocase.to_case(D)
    try:
        calc, B = solve_full(D)
        tr = observe.observe(D, cs, calc.results())
    except Infeasible:
        return False
    except Exception:
        traceback.print_exc()
        return True
    bad, _ = conform.tlc_traces([(cs, tr)])
    print(bad[0])
    return bool(bad[0])


JOBS = dict(explore=explore_job, trace=trace_job)
REPLAY = dict(explore=explore_replay, trace=trace_replay)
