"""C20: sequences of calculations of one system (spec/Lifecycle.tla), against calculations of fresh systems."""
import copy
import json
import os
import random
import shutil
import tempfile

import numpy as np

import build
import families
import gen
import jobs
import refs
import tlc

F = families.F
FAMS = [F(T=(6, 8), pen=0.8, stor=0.7, nstor=1, onoff=0.4, hist=0.5, prof=0.6, extra=1, effp=0.9, uneq=0.5, tsp=0.5, share=0.3, neff=(1, 3), nconv=(0, 1), slackfree=0.1),
        F(T=(6, 8), pen=0.6, onoff=0.5, compon=0.4, hist=0.5, starts=0.4, oneff=0.6, inv=0.4, invseg=0.2, prof=0.6, extra=1, effp=0.9, tsp=0.6, nconv=(0, 2), pw=0.2, slackfree=0.1),
        F(T=(6, 8), pen=0.6, trans=0.3, srcsink=0.3, excl=0.2, stor=0.3, inv=0.3, storinv=0.3, prof=0.5, extra=1, effp=0.9, share=0.5, neff=(2, 3), tsp=0.5, nconv=(0, 1), slackfree=0.1)]
FAMS.append(dict(FAMS[0], pen=0.3, slackfree=0.5, stor=0.3))


# ---------------------------------------------------------------- what the user may change
def raw(v):
    return np.array(v, dtype=float) if isinstance(v, list) else v


def setters(D):
    """possible changes: name -> (function of (rng, D) changing D, function of (B, D) doing the same to the objects)"""
    out = []
    n = 0
    for ci, comp in enumerate(D['comps']):
        for fi, fl in enumerate(comp['flows']):
            def at(D, ci=ci, fi=fi):
                return D['comps'][ci]['flows'][fi]
            if isinstance(fl['prof'], list) or (fl['prof'] is not None):
                def f(rng, D, at=at):
                    k = rng.choice([0.5, 0.7, 0.9, 1.1, 4.0])
                    p = at(D)['prof']
                    at(D)['prof'] = [round(x * k, 4) for x in (p if isinstance(p, list) else [p] * D['T'])]
                out.append(('profile of ' + comp['label'] + '/' + fl['label'], f, lambda B, D, n=n, at=at: setattr(B.flows[n], 'fixed_relative_profile', raw(at(D)['prof']))))
            if fl['eff']:
                def f(rng, D, at=at):
                    for e in at(D)['eff']:
                        e[1] = [round(x + 0.7, 4) for x in e[1]] if isinstance(e[1], list) else round(e[1] + 0.7, 4)
                    if rng.random() < 0.3 and len(at(D)['eff']) > 1:
                        at(D)['eff'].pop()
                out.append(('effects of ' + comp['label'] + '/' + fl['label'], f, lambda B, D, n=n, at=at: setattr(
                    B.flows[n], 'effects_per_flow_hour', {None if e is None else B.effects[e]: raw(v) for e, v in at(D)['eff']})))
            if isinstance(fl['size'], dict) and fl['size']['kind'] == 'num':
                def f(rng, D, at=at):
                    at(D)['size']['v'] = round(at(D)['size']['v'] * rng.choice([0.5, 0.8, 1.5]), 4)
                out.append(('size of ' + comp['label'] + '/' + fl['label'], f, lambda B, D, n=n, at=at: setattr(B.flows[n], 'size', at(D)['size']['v'])))
            if fl['prof'] is None:
                def f(rng, D, at=at):
                    at(D)['rmax'] = rng.choice([0.5, 0.75, [rng.choice([0.6, 0.9, 1]) for _ in range(D['T'])]])
                if not isinstance(fl['rmin'], list) and fl['rmin'] <= 0.5:
                    out.append(('upper bound of ' + comp['label'] + '/' + fl['label'], f, lambda B, D, n=n, at=at: setattr(B.flows[n], 'relative_maximum', raw(at(D)['rmax']))))
            n += 1
    for bi, b in enumerate(D['buses']):
        if b['pen'] not in (None, 'default') and any(fl['bus'] == bi for c in D['comps'] for fl in c['flows']):
            def f(rng, D, bi=bi):
                p = D['buses'][bi]['pen']
                D['buses'][bi]['pen'] = [round(x * 2, 4) for x in p] if isinstance(p, list) else p * 2
            out.append(('penalty of ' + b['label'], f, lambda B, D, bi=bi: setattr(B.buses[bi], 'excess_penalty_per_flow_hour', raw(D['buses'][bi]['pen']))))
    for ei, e in enumerate(D['effs']):
        def f(rng, D, ei=ei):
            # no system can keep such a limit / every system can
            D['effs'][ei]['maxtot'] = -5000 if rng.random() < 0.7 else 1e5
        out.append(('limit of ' + e['label'], f, lambda B, D, ei=ei: setattr(B.effects[ei], 'maximum_total', D['effs'][ei].get('maxtot'))))
    for ci, comp in enumerate(D['comps']):
        if comp['cls'] == 'Storage':
            def f(rng, D, ci=ci):
                c = D['comps'][ci]
                c['init'] = 'cyc' if c['init'] != 'cyc' else 0
            if not isinstance(comp['cap'], dict):
                out.append(('start of ' + comp['label'], f, lambda B, D, ci=ci: setattr(
                    B.comps[ci], 'initial_charge_state', 'lastValueOfSim' if D['comps'][ci]['init'] == 'cyc' else D['comps'][ci]['init'])))
        if comp.get('onoff') is not None and comp['cls'] not in ('Transmission',):
            def f(rng, D, ci=ci):
                D['comps'][ci]['onoff'] = None
            live = []

            def g(B, D, ci=ci):
                if not hasattr(B, 'kept'):
                    B.kept = {}
                B.kept.setdefault(ci, B.comps[ci].on_off_parameters)
                B.comps[ci].on_off_parameters = None if D['comps'][ci]['onoff'] is None else B.kept[ci]
            out.append(('operation conditions of ' + comp['label'], f, g))
    return out


# ---------------------------------------------------------------- calculations
class Kinds:
    """kinds of calculations: full ones of some steps, segmented, aggregated"""

    @staticmethod
    def choose(D, rng, agg):
        T = D['T']
        out = [dict(k='full', how='full', idx=None)]
        a = rng.randint(0, T - 3)
        out.append(dict(k='full', how='full', idx=[a, rng.randint(a + 3, T)]))
        out.append(dict(k='full', how='full', idx=sorted(rng.sample(range(T), rng.randint(2, T - 1))), each=1))
        if agg:
            out.append(dict(k='full', how='agg', idx=None, store=rng.random() < 0.5, data=rng.random() < 0.5, free=rng.choice([0, 0, 50]), pen=rng.choice([0, 1])))
        S = rng.randint(3, 4)
        if S + 1 <= T:
            out.append(dict(k='seg', how='seg', S=S, O=rng.randint(0, min(2, T - S)), idx=None))
        rng.shuffle(out)
        return out

    @staticmethod
    def make(kd, name, B, D):
        fx = jobs.fx()
        idx = kd['idx']
        if idx is not None:
            idx = idx if kd.get('each') else range(*idx)
        if kd['how'] == 'full':
            return fx.FullCalculation(name, B.fs, time_indices=idx)
        if kd['how'] == 'seg':
            return fx.SegmentedCalculation(name, B.fs, kd['S'], kd['O'], time_indices=idx)
        par = fx.AggregationParameters(hours_per_period=D['T'] // 2 * D['dt'][0], nr_of_periods=1, fix_storage_flows=kd['store'], aggregate_data_and_fix_non_binary_vars=kd['data'],
                                       percentage_of_period_freedom=kd['free'], penalty_of_period_freedom=kd['pen'])
        return fx.AggregatedCalculation(name, B.fs, par, time_indices=idx)

    @staticmethod
    def model(calc):
        np.random.seed(1)
        calc.do_modeling()


def quietly(fn):
    """what the code writes goes to a scratch directory which is the working directory"""
    def g(*a):
        old = os.getcwd()
        d = tempfile.mkdtemp(prefix='life_')
        os.environ['BROWSER'] = 'true'
        try:
            os.chdir(d)
            return fn(*a)
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)
    return g


@quietly
def reference(D, kd):
    """a calculation of a fresh system: dict(canon, obj) / dict(obj=None) when there is no solution / dict(refused)"""
    B = build.build(D)
    calc = Kinds.make(kd, 'ref', B, D)
    if kd['k'] == 'full':
        try:
            Kinds.model(calc)
        except Exception as e:
            return dict(refused=repr(e)[:200])
        c = refs.Canon(calc.system_model)
        return dict(canon=c, obj=c.problem().optimum(), time=[str(t) for t in np.asarray(calc.system_model.time_series_with_end)])
    try:
        calc.do_modeling_and_solve(jobs.solver(), save_results=False)
    except Exception as e:
        return dict(obj=None, why=repr(e)[:200])
    objs = [float(s.results()['Objective']) for s in calc.sub_calculations]
    canons = [refs.Canon(s.system_model) for s in calc.sub_calculations]
    return dict(objs=objs, obj=sum(objs), canons=canons)


def same_amount(a, b):
    return abs(a - b) <= 2e-4 * max(1.0, abs(a), abs(b))


def check_results(res, ref, what):
    """results (a dictionary) against the reference of a full calculation"""
    if res is None or res.get('Objective') is None:
        return what + ': no results'
    o = float(res['Objective'])
    P = ref['canon'].problem()
    # better than possible by the tolerances of the solver alone (a start-up which counts as 1e-6): a solution within them with this objective
    within = o < ref['obj'] and same_amount(o, P.amount(res)) and P.violation(res, 1e-5) is None
    if not same_amount(o, ref['obj']) and not within:
        return '%s: objective %g instead of %g' % (what, float(res['Objective']), ref['obj'])
    tm = [str(np.datetime64(t).astype('datetime64[s]')) for t in res['Time']]
    if tm != [str(np.datetime64(t).astype('datetime64[s]')) for t in ref['time']]:
        return '%s: time stamps %s' % (what, tm)
    v = ref['canon'].problem().violation(res)
    return None if v is None else '%s: the results are not a solution: %s' % (what, v)


def freeze(res):
    """everything reported, as numbers"""
    out = {}
    for path, v in refs.flat(res):
        try:
            out['/'.join(path)] = np.array(v, dtype=float) if path != ('Time',) else np.array(v).astype('datetime64[s]').astype(float)
        except (TypeError, ValueError):
            out['/'.join(path)] = repr(v)
    return out


def equal(a, b):
    if a.keys() != b.keys():
        return False
    return all((isinstance(a[k], str) and a[k] == b[k]) or (not isinstance(a[k], str) and np.shape(a[k]) == np.shape(b[k]) and np.allclose(a[k], b[k], rtol=1e-9, atol=1e-9, equal_nan=True)) for k in a)


@quietly
def replay(U, hist, table):
    """runs one sequence of operations; returns what is wrong, or None.  table[p][v]: references"""
    Ds, kinds = U['Ds'], U['kinds']
    B = build.build(Ds[0])
    sets = {s[0]: s for s in setters(Ds[0])}
    cur = 0
    calcs, seen = {}, []
    for n, h in enumerate(hist):
        op, i = h['op'], h['i']
        kd = kinds[h['p'] - 1] if h['p'] else None
        ref = table[h['p'] - 1][h['v'] - 1] if h['p'] else None
        what = 'operation %d (%s)' % (n + 1, op)
        if op in ('start', 'model'):
            if op == 'start':
                calcs[i] = Kinds.make(kd, 'calc%d' % i, B, Ds[0])
            try:
                Kinds.model(calcs[i])
            except Exception as e:
                return '%s: %r' % (what, e)
            bad = refs.Canon(calcs[i].system_model).same(ref['canon'])
            if bad:
                return '%s: not the problem of a fresh system: %s' % (what, bad)
        elif op in ('solve', 'save'):
            try:
                calcs[i].solve(jobs.solver(), **(dict(save_results='out') if op == 'save' else {}))
                err = None
            except Exception as e:
                err = e
            if (err is None) != (h['tok'] != 0):
                return '%s: %s' % (what, 'error %r, though there is a solution' % err if err is not None else 'no error, though there is no solution')
            if err is None:
                if op == 'save':
                    sv = jobs.fx().results.CalculationResults(calcs[i].name, 'out')
                    bad = check_results(sv.all_results, ref, what + ', saved')
                    if bad:
                        return bad
                bad = check_results(calcs[i].system_model.results(), ref, what)
                if bad:
                    return bad
        elif op in ('run', 'rerun'):
            if op == 'run':
                calcs[i] = Kinds.make(kd, 'calc%d' % i, B, Ds[0])
            try:
                calcs[i].do_modeling_and_solve(jobs.solver(), save_results=False)
                err = None
            except Exception as e:
                err = e
            # which of several equally good solutions a segment ends in decides what follows: only the first segment is certain
            subs = calcs[i].sub_calculations
            if ref['obj'] is not None and len(subs) and subs[0].system_model is not None:
                bad = refs.Canon(subs[0].system_model).same(ref['canons'][0])
                if bad:
                    return '%s: the first segment is not the one of a fresh system: %s' % (what, bad)
                if err is None:
                    o = float(subs[0].results()['Objective'])
                    if not same_amount(o, ref['objs'][0]):
                        return '%s: objective of the first segment %g instead of %g' % (what, o, ref['objs'][0])
                    if len(subs) != len(ref['objs']):
                        return '%s: %d segments instead of %d' % (what, len(subs), len(ref['objs']))
            if (err is None) != (h['tok'] != 0):
                # the chain may fail or not depending on the choice between equally good solutions
                return None
        elif op == 'read':
            c = calcs[i]
            if kd['k'] == 'full':
                res = c.results()
                bad = check_results(res, ref, what)
                if bad:
                    return bad
            else:
                res = c.results(individual_results=True)
                o = float(res['Segment_1']['Objective'])
                if not same_amount(o, ref['objs'][0]):
                    return '%s: objective of the first segment %g instead of %g' % (what, o, ref['objs'][0])
            seen.append((n, res, freeze(res)))
        elif op == 'edit':
            cur = h['v'] - 1
            for name in U['changes']:
                sets[name][2](B, Ds[cur])
        elif op == 'inspect':
            try:
                str(B.fs), repr(B.fs), B.fs.infos(), B.fs.infos(use_numpy=False), B.fs.network_infos()
                B.fs.to_json('system.json')
                for c in B.comps:
                    repr(c), str(c)
            except Exception as e:
                return '%s: %r' % (what, e)
    for n, res, was in seen:
        if not equal(freeze(res), was):
            return 'the results obtained in operation %d changed afterwards' % (n + 1)
    return None


def universe(seed, fam):
    """versions of a system, kinds of calculations and their references"""
    rng = random.Random(seed)
    agg = rng.random() < 0.35
    fp = dict(FAMS[fam])
    if agg:
        fp.update(uneq=0.0, T=(6, 6) if rng.random() < 0.7 else (8, 8))
    D = gen.Gen(rng, **fp).system()
    if rng.random() < 0.4:
        # several flows with the same effects, given in one dictionary
        D['shareddicts'] = True
        ev = [[None if rng.random() < 0.5 else D['std'], rng.choice([1, 2, [rng.choice([0.5, 1, 2]) for _ in range(D['T'])]])]]
        others = [i for i in range(len(D['effs'])) if i != D['std']]
        if others and rng.random() < 0.7:
            ev.append([rng.choice(others), rng.choice([0.5, 1])])
        fls = [fl for c in D['comps'] for fl in c['flows']]
        for fl in rng.sample(fls, min(len(fls), rng.randint(2, 4))):
            fl['eff'] = copy.deepcopy(ev)
    sets = setters(D)
    chosen = rng.sample(sets, min(len(sets), rng.choice([1, 2, 2, 3])))
    for s in sets:
        if s[0].startswith(('operation conditions', 'start of')) and s not in chosen and rng.random() < 0.4:
            chosen.append(s)
    Ds = [D]
    for v in range(rng.choice([1, 2])):
        E = copy.deepcopy(Ds[0])
        for s in chosen:
            if v == 0 or rng.random() < 0.6:
                s[1](rng, E)
        Ds.append(E)
    kinds = Kinds.choose(D, rng, agg)[:rng.choice([2, 2, 3])]
    return dict(Ds=Ds, kinds=kinds, changes=[s[0] for s in chosen])


def references(U):
    table = []
    for kd in U['kinds']:
        row = []
        for D in U['Ds']:
            st, v = refs.forked(reference, D, kd)
            if st != 'ok':
                raise RuntimeError(v)
            if kd['how'] == 'agg':
                # clusters may be a matter of chance: only certain ones are used
                w = refs.forked(_other, D, kd)[1]
                if 'canon' in v and ('canon' not in w or v['canon'].same(w['canon'])):
                    v = dict(refused='not certain')
            row.append(v)
        table.append(row)
    return table


def _other(D, kd):
    old = np.random.seed
    np.random.seed = lambda s: old(7)
    return reference(D, kd)


def sequences(cases):
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(cases, f)
    try:
        recs, st, _ = tlc.run('Lifecycle', dict(CASES=f.name))
    finally:
        os.unlink(f.name)
    return recs, st


USEFUL = ('solve', 'save', 'run', 'rerun', 'read')


def telling(h):
    """how much of what could go wrong a sequence would show"""
    ver, last, toks, score = 1, None, {}, 1
    for x in h:
        if x['op'] == 'edit':
            ver = x['v']
        if x['op'] in ('start', 'model', 'run', 'rerun'):
            last = x['i']
            score += 3 * (x['op'] == 'model')
        if x['op'] in USEFUL:
            old = toks.setdefault(x['i'], [])
            score += 1 + 4 * any(t != x['tok'] for t in old) + 2 * (last != x['i']) + (ver != x['v']) + (x['tok'] == 0) + (x['op'] in ('read', 'save'))
            old.append(x['tok'])
    return score ** 3


def life_job(P, seed, fam, n, depth, most, inspect=1):
    out = jobs.new_out()
    us, cases = [], []
    k = 0
    while len(us) < n and k < 6 * n:
        k += 1
        U = universe('%s/%d' % (seed, k), fam)
        table = references(U)
        good = [i for i, row in enumerate(table) if not any('refused' in r for r in row)]
        U['kinds'] = [U['kinds'][i] for i in good]
        table = [table[i] for i in good]
        if not table or all(r['obj'] is None for row in table for r in row):
            jobs.add(out, 'universe without any solution')
            continue
        us.append((U, table))
        cases.append(dict(kinds=[dict(k=kd['k'], ok=[int(r['obj'] is not None) for r in row]) for kd, row in zip(U['kinds'], table)],
                          versions=len(U['Ds']), most=2, depth=depth, inspect=inspect))
        for row in table:
            for r in row:
                jobs.add(out, 'reference with solution' if r['obj'] is not None else 'reference without solution')
    recs, st = sequences(cases)
    out['states'], out['transitions'] = st['states'], st['transitions']
    per = {}
    for r in recs:
        if r['hist'][-1]['op'] in USEFUL:
            per.setdefault(r['ci'] - 1, []).append(r['hist'])
    rng = random.Random(seed)
    for ci, hs in sorted(per.items()):
        jobs.add(out, 'sequences possible', len(hs))
        # sequences which change, repeat and look more are more telling
        hs.sort(key=lambda h: json.dumps(h))
        w = [telling(h) for h in hs]
        pick = rng.choices(hs, weights=w, k=min(most, len(hs)))
        U, table = us[ci]
        for h in pick:
            st, bad = refs.forked(replay, U, h, table)
            if st != 'ok':
                raise RuntimeError(bad)
            out['traces'] += 1
            jobs.add(out, 'operations', len(h))
            for x in h:
                jobs.add(out, x['op'])
            if bad:
                out['dis'].append(dict(kind='life', U=U, hist=h, what=bad + '; changes: ' + ', '.join(U['changes']) + '; ' + ' '.join(
                    '%s%d(%s)' % (x['op'], x['i'], x['p'] or x['v']) for x in h)))
    if us:
        out['samples'].append(dict(kinds=us[0][0]['kinds'], changes=us[0][0]['changes'], sequence=per.get(0, [[]])[0]))
    return out


def life_replay(P, item):
    U = item['U']
    st, bad = refs.forked(replay, U, item['hist'], references(U))
    print(bad)
    return st != 'ok' or bad is not None


JOBS = dict(life=life_job)
REPLAY = dict(life=life_replay)
