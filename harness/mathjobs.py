"""C23: the equation layer (spec/MathModel.tla) bound to flixOpt.math_modeling."""
import json
import os
import random
import tempfile

import numpy as np
import pyomo.environ as pyo

import jobs
import milp
import tlc
from tocase import NONE

BIG = 10 ** 6


# ------------------------------------------------------------------ cases
def variables(rng, solve=False):
    out = []
    for k in range(rng.randint(2, 3)):
        n = rng.choice([1, 2, 3, 3, 4] if not solve else [1, 2, 3])
        v = dict(n=n, bin=int(rng.random() < (0.35 if not solve else 0.75)), lb=[NONE] * n, ub=[NONE] * n, fx=[], rep={})
        if v['bin']:
            if rng.random() < 0.3:
                v['fx'] = [rng.choice([0, 1]) for _ in range(n)]
        else:
            # an unbounded variable which nothing uses would make the problem unbounded
            for key, lo, hi in (('lb', -2, 1), ('ub', 2, 4)):
                if solve or rng.random() < 0.7:
                    v[key] = [rng.randint(lo, hi)] * n if rng.random() < 0.5 else [rng.randint(lo, hi) for _ in range(n)]
                    if not solve and rng.random() < 0.2:
                        v[key][rng.randrange(n)] = NONE
            if rng.random() < 0.25 and all(len({x == NONE for x in v[k]}) == 1 for k in ('lb', 'ub')):
                v['fx'] = [max(v['lb'][j] if v['lb'][j] != NONE else -9, min(v['ub'][j] if v['ub'][j] != NONE else 9, rng.randint(-2, 4))) for j in range(n)]
        out.append(v)
    return out


def part(rng, vs, v=None, scalar=False):
    """one part; rep tells in which Python form it is given"""
    if rng.random() < 0.25 and v is None:
        m = 1 if scalar else rng.choice([1, 1, 2, 3, 4])
        return dict(k='C', f=[rng.choice([-3, -1, 0, 1, 2, 5]) for _ in range(m)], v=1, ix=[1], sum=0, rep=rng.choice(['array', 'list']) if m > 1 else 'scalar')
    v = rng.randint(1, len(vs)) if v is None else v
    n = vs[v - 1]['n']
    u = rng.random()
    if u < 0.35:
        ix, ir = list(range(1, n + 1)), 'none'
    elif u < 0.6:
        ix, ir = [rng.randint(1, n)], rng.choice(['int', 'npint', 'list', 'array'])
    elif u < 0.8:
        a = rng.randint(1, n)
        b = rng.randint(a, n)
        ix, ir = list(range(a, b + 1)), rng.choice(['range', 'list', 'array'])
        if rng.random() < 0.25:
            ix = ix[::-1]
            ir = rng.choice(['list', 'array'])
    else:
        ix, ir = [rng.randint(1, n) for _ in range(rng.choice([1, 2, 3, 4]))], rng.choice(['list', 'array'])
    m = len(ix)
    u = rng.random()
    if u < 0.5:
        f, fr = [rng.choice([-2, -1, 1, 2, 3])], rng.choice(['scalar', 'float', 'npfloat'])
    else:
        q = m if rng.random() < 0.8 and m > 1 else rng.choice([2, 3, 4])
        f, fr = [rng.choice([-2, -1, 1, 2, 3, 4]) for _ in range(q)], rng.choice(['array', 'list'])
    s = int(rng.random() < 0.3)
    return dict(k='S', v=v, f=f, ix=ix, sum=s, rep=fr, irep=ir)


def build_case(rng, nmax):
    vs = variables(rng)
    ops = [part(rng, vs) for _ in range(6)]
    return dict(mode='build', vars=vs, ops=ops, nmax=nmax, cons=[], obj=[], unit=rng.choice([1, 1, 1, 0.001, 0.37, 1000, -1]))


def fits(o):
    return o['k'] == 'C' or len(o['f']) == len(o['ix']) or len(o['f']) == 1 or len(o['ix']) == 1


def length(o):
    return len(o['f']) if o['k'] == 'C' else 1 if o['sum'] else max(len(o['f']), len(o['ix']))


def solve_case(rng):
    vs = variables(rng, True)
    ops, cons, obj = [], [], []
    bins = [i + 1 for i, v in enumerate(vs) if v['bin'] or v['fx']]
    for _ in range(rng.randint(1, 3)):
        q, n = [], 1
        single = not bins or rng.random() < 0.25
        if single:
            # one continuous variable alone, against a constant
            v = rng.randint(1, len(vs))
            n = vs[v - 1]['n']
            ops.append(dict(k='S', v=v, f=[rng.choice([1, -1])], ix=list(range(1, n + 1)), sum=0, rep='scalar', irep='none'))
            q.append(len(ops))
        else:
            for _ in range(rng.randint(1, 3)):
                o = part(rng, vs, rng.choice(bins))
                if not fits(o) or (n > 1 and length(o) not in (1, n)):
                    continue
                n = max(n, length(o))
                ops.append(o)
                q.append(len(ops))
        if not q:
            continue
        m = rng.choice([1, n])
        ops.append(dict(k='C', v=1, ix=[1], sum=0, f=[rng.choice([-1, 0, 1, 1, 2, 2, 3]) for _ in range(m)], rep='array' if m > 1 else 'scalar'))
        q.append(len(ops))
        rng.shuffle(q)
        cons.append(dict(eq=int(rng.random() < 0.2), ops=q))
    for i, v in enumerate(vs):
        if rng.random() < 0.5 or v['n'] == 1:
            ops.append(dict(k='S', v=i + 1, f=[rng.choice([-2, -1, 1, 2, 3])], ix=list(range(1, v['n'] + 1)), sum=1, rep='scalar', irep='none'))
        else:
            ops.append(dict(k='S', v=i + 1, f=[rng.choice([-4, -2, -1, 1, 3, 5]) for _ in range(v['n'])], ix=list(range(1, v['n'] + 1)), sum=1, rep='array', irep='none'))
        obj.append(len(ops))
    rng.shuffle(obj)
    return dict(mode='solve', vars=vs, ops=ops, nmax=0, cons=cons, obj=obj)


# ------------------------------------------------------------------ the real classes
def given(vals, how):
    """None, scalar or vector form of per-index values"""
    if all(x == NONE for x in vals):
        return None
    if len(set(vals)) == 1 and how != 'vector':
        return vals[0]
    if any(x == NONE for x in vals):
        return np.array([None if x == NONE else x for x in vals], dtype=object)
    return np.array(vals, dtype=float) if how != 'list' else list(vals)


def mkvars(vs, rng):
    import flixOpt.math_modeling as mm
    out = []
    for i, v in enumerate(vs):
        cls = mm.VariableTS if v['n'] > 1 and rng.random() < 0.5 else mm.Variable
        out.append(cls('x%d' % i, v['n'], is_binary=bool(v['bin']), lower_bound=given(v['lb'], rng.choice(['vector', 'short'])),
                       upper_bound=given(v['ub'], rng.choice(['vector', 'short'])),
                       fixed_value=given(v['fx'], rng.choice(['vector', 'short'])) if v['fx'] else None))
    return out


def offer(eq, o, X, unit=1):
    """True if the part was accepted; unit: what the specification counts factors and constants in"""
    f = [unit * x for x in o['f']]
    f = f[0] if o['rep'] == 'scalar' else float(f[0]) if o['rep'] == 'float' else np.float64(f[0]) if o['rep'] == 'npfloat' else \
        f if o['rep'] == 'list' else np.array(f, dtype=float)
    try:
        if o['k'] == 'C':
            eq.add_constant(f)
        else:
            ix = [j - 1 for j in o['ix']]
            r = o['irep']
            ix = None if r == 'none' else ix[0] if r == 'int' else np.int64(ix[0]) if r == 'npint' else range(ix[0], ix[-1] + 1) if r == 'range' else \
                np.array(ix) if r == 'array' else ix
            eq.add_summand(X[o['v'] - 1], f, ix, as_sum=bool(o['sum']))
        return True
    except Exception:
        return False


def canon(row, lo, up):
    """a row up to scaling"""
    row = {j: c for j, c in row.items() if abs(c) > 1e-12}
    if not row:
        return None
    s = row[min(row)]
    lo, up = (x if abs(x) >= BIG else x / abs(s) for x in (lo, up))
    if s < 0:
        lo, up = -up, -lo
    r = lambda x: round(x, 9) + 0.0
    return (tuple(sorted((j, r(c / s)) for j, c in row.items())), r(max(lo, -BIG)), r(min(up, BIG)))


def rows_of(h):
    lp = h.getLp()
    m = lp.a_matrix_
    out = []
    start, index, value = list(m.start_), list(m.index_), list(m.value_)
    import highspy
    if m.format_ == highspy.MatrixFormat.kColwise:
        rows = [dict() for _ in range(lp.num_row_)]
        for j in range(lp.num_col_):
            for k in range(start[j], start[j + 1]):
                rows[index[k]][j] = rows[index[k]].get(j, 0) + value[k]
    else:
        rows = []
        for i in range(lp.num_row_):
            d = {}
            for k in range(start[i], start[i + 1]):
                d[index[k]] = d.get(index[k], 0) + value[k]
            rows.append(d)
    for i, d in enumerate(rows):
        out.append((d, lp.row_lower_[i], lp.row_upper_[i]))
    return out


def off(vs):
    o = [0]
    for v in vs:
        o.append(o[-1] + v['n'])
    return o


class Bad(Exception):
    pass


def columns(model, X, vs, cols):
    """column of each position"""
    out = []
    for x, v in zip(X, vs):
        comp = model.mapping[x]
        for i in range(v['n']):
            out.append(cols[id(comp[i])])
    return out


def replay_build(case, recs, rng, chunk=120):
    import flixOpt.math_modeling as mm
    dis, n = [], 0
    vs = case['vars']
    unit = case['unit']
    for a in range(0, len(recs), chunk):
        part_ = recs[a:a + chunk]
        X = mkvars(vs, rng)
        M = mm.MathModel('m')
        M.add(*X)
        want = {}
        fixed = {}
        for i, v in enumerate(vs):
            for j, x in enumerate(v['fx']):
                fixed[off(vs)[i] + j] = x
        cnt = dict(eq=0, ineq=0)
        for k, r in enumerate(part_):
            eq = rng.random() < 0.5
            q = (mm.Equation if eq else mm.Inequation)('c%d' % k)
            got = [int(offer(q, case['ops'][i - 1], X, unit)) for i in r['seq']]
            n += 1
            if got != r['acc']:
                dis.append(dict(rec=r, what='parts %s: accepted %s, should be %s' % (json.dumps([case['ops'][i - 1] for i in r['seq']]), got, r['acc'])))
                continue
            ops = [case['ops'][i - 1] for i, ok in zip(r['seq'], r['acc']) if ok]
            if not any(o['k'] == 'S' for o in ops) or not all(any(row) for row in r['rows']):
                continue        # nothing the solver could be given
            M.add(q)
            for row, c in zip(r['rows'], r['con']):
                # values of fixed variables are part of the constant
                c2 = unit * (c - sum(x * fixed[j] for j, x in enumerate(row) if j in fixed))
                k2 = canon({j: unit * x for j, x in enumerate(row) if j not in fixed}, c2 if eq else -BIG, c2)
                if k2 is not None:
                    want.setdefault(k2, []).append(r)
            cnt['eq' if eq else 'ineq'] += len(r['rows'])
        obj = mm.Equation('obj', is_objective=True)
        for x in X:
            obj.add_summand(x, 1, as_sum=True)
        M.add(obj)
        sizes = (M.nr_of_single_equations, M.nr_of_single_inequations, M.nr_of_single_variables)
        if sizes != (cnt['eq'], cnt['ineq'], off(vs)[-1]):
            dis.append(dict(rec=None, what='model size %s, should be %s' % (sizes, (cnt['eq'], cnt['ineq'], off(vs)[-1]))))
        M.translate_to_modeling_language()
        h, cols, lo, up = milp.export(M.model.model)
        C = columns(M.model, X, vs, cols)
        if sorted(C) != list(range(len(lo))):
            dis.append(dict(rec=None, what='the solver does not get exactly the stated variables'))
            continue
        inv = {c: p for p, c in enumerate(C)}
        integ = list(h.getLp().integrality_) or []
        p = 0
        for v in vs:
            for j in range(v['n']):
                wl = v['fx'][j] if v['fx'] else max(0, v['lb'][j]) if v['bin'] else v['lb'][j]
                wu = v['fx'][j] if v['fx'] else min(1, v['ub'][j] if v['ub'][j] != NONE else 1) if v['bin'] else v['ub'][j]
                got = (max(lo[C[p]], -BIG), min(up[C[p]], BIG), bool(integ) and 'Integer' in str(integ[C[p]]))
                w = (-BIG if wl == NONE else wl, BIG if wu == NONE else wu, bool(v['bin']))
                # a fixed variable need not be declared integer
                if got[:2] != w[:2] or (got[2] != w[2] and not v['fx']):
                    dis.append(dict(rec=None, what='variable %s index %d: bounds and integrality %s, should be %s' % (v, j, got, w)))
                p += 1
        have = {}
        for d, l, u in rows_of(h):
            k = canon({inv[j]: x for j, x in d.items()}, l, u)
            if k is not None:
                have[k] = have.get(k, 0) + 1
        for k in want:
            if k not in have:
                r = want[k][0]
                dis.append(dict(rec=r, what='parts %s: the solver lacks the row %s' % (json.dumps([case['ops'][i - 1] for i in r['seq']]), k)))
        for k in have:
            if k not in want:
                dis.append(dict(rec=None, what='the solver gets the row %s, which was not stated' % (k,)))
    return dis, n


def replay_solve(case, recs, rng):
    import flixOpt.math_modeling as mm
    vs = case['vars']
    X = mkvars(vs, rng)
    M = mm.MathModel('m')
    M.add(*X)
    for k, q in enumerate(case['cons']):
        e = (mm.Equation if q['eq'] else mm.Inequation)('c%d' % k)
        for i in q['ops']:
            if not offer(e, case['ops'][i - 1], X):
                return [dict(rec=None, what='a fitting part was rejected: %s' % case['ops'][i - 1])]
        M.add(e)
    obj = mm.Equation('obj', is_objective=True)
    for i in case['obj']:
        if not offer(obj, case['ops'][i - 1], X):
            return [dict(rec=None, what='a fitting part was rejected: %s' % case['ops'][i - 1])]
    M.add(obj)
    M.translate_to_modeling_language()
    try:
        M.solve(jobs.solver())
        ok = True
    except Exception as e:
        ok = False
        err = repr(e)[:200]
    if not recs:
        if ok:
            return [dict(rec=None, what='no assignment obeys the constraints, but solving reports %s' % [x.result for x in X])]
        left = [x.result for x in X if x.result is not None]
        return [dict(rec=None, what='results left after an infeasible problem: %s' % left)] if left else []
    if not ok:
        return [dict(rec=recs[0], what='solving failed although %s obeys all constraints: %s' % (recs[0]['x'], err))]
    best = min(r['obj'] for r in recs)
    pts = [r['x'] for r in recs if r['obj'] == best]
    got = [round(float(z), 6) + 0.0 for x in X for z in np.atleast_1d(x.result)]
    out = []
    if [np.ndim(x.result) for x in X] != [int(v['n'] > 1) for v in vs]:
        out.append(dict(rec=None, what='results have shapes %s' % [np.shape(x.result) for x in X]))
    if abs(M.result_of_objective - best) > 1e-6:
        out.append(dict(rec=None, what='objective %s, the best assignment %s has %s' % (M.result_of_objective, pts[0], best)))
    elif len(pts) == 1 and any(abs(a - b) > 1e-6 for a, b in zip(got, pts[0])):
        out.append(dict(rec=None, what='results %s, the only best assignment is %s' % (got, pts[0])))
    elif all(abs(a - round(a)) < 1e-6 for a in got) and [int(round(a)) for a in got] not in pts:
        out.append(dict(rec=None, what='results %s are not a best assignment' % got))
    return out


def tlc_math(cases):
    slim = [dict(mode=c['mode'], nmax=c['nmax'], cons=c['cons'], obj=c['obj'],
                 vars=[dict(n=v['n'], bin=v['bin'], lb=v['lb'], ub=v['ub'], fx=v['fx']) for v in c['vars']],
                 ops=[dict(k=o['k'], v=o['v'], f=o['f'], ix=o['ix'], sum=o['sum']) for o in c['ops']]) for c in cases]
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(slim, f)
    try:
        recs, stats, _ = tlc.run('MathModel', dict(CASES=f.name))
    finally:
        os.unlink(f.name)
    by = [[] for _ in cases]
    for r in recs:
        by[r['ci'] - 1].append(r)
    return by, stats


def math_job(P, mode, seed, n, nmax=3):
    rng = random.Random(seed)
    out = jobs.new_out()
    cases = [build_case(rng, nmax) if mode == 'build' else solve_case(rng) for _ in range(n)]
    by, st = tlc_math(cases)
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    for case, recs in zip(cases, by):
        s = rng.randrange(10 ** 9)
        jobs.add(out, mode + '_cases')
        if mode == 'build':
            dis, k = replay_build(case, recs, random.Random(s))
            jobs.add(out, 'constraints_built', k)
            jobs.add(out, 'with_rejected_parts', sum(1 for r in recs if 0 in r['acc']))
            out['traces'] += k
        else:
            dis = replay_solve(case, recs, random.Random(s))
            jobs.add(out, 'solved' if recs else 'infeasible')
            out['traces'] += 1
        if not out['samples'] and recs:
            out['samples'].append(dict(case=case, behaviour=recs[-1]))
        for d in dis[:3]:
            out['dis'].append(dict(kind='math', mode=mode, case=case, s=s, what=d['what']))
    return out


def math_replay(P, item):
    by, _ = tlc_math([item['case']])
    f = replay_build if item['mode'] == 'build' else replay_solve
    dis = f(item['case'], by[0], random.Random(item['s']))
    dis = dis[0] if item['mode'] == 'build' else dis
    for d in dis[:5]:
        print(d['what'])
    return bool(dis)


JOBS = dict(math=math_job)
REPLAY = dict(math=math_replay)
