"""C19: aggregated calculations (spec/AggPeriods.tla, AggExplore.tla, AggTrace.tla).

The clustering library is used as it is, except that (a) the data it predicts is rounded to two decimals, so
that it is exact in the numbers of the specification, and (b) in most runs its assignment of periods to
clusters is replaced by a drawn one (with the means of the periods as data): any assignment is possible."""
import copy
import json
import random
import traceback

import numpy as np
import tsam.timeseriesaggregation as tsamlib

import conform
import explore
import families
import gen
import jobs
import moves as mv
import observe
import tocase
import windows
from lifejobs import quietly
from tocase import NONE, q

# ---------------------------------------------------------------- at the boundary of the library
FORCE = dict(order=None, seen=[])
_C = tsamlib.TimeSeriesAggregation
_init, _create, _predict = _C.__init__, _C.createTypicalPeriods, _C.predictOriginalData


def _i(self, timeSeries, *a, **k):
    _init(self, timeSeries, *a, **k)
    FORCE['seen'].append(self)


def _c(self):
    out = _create(self)
    if FORCE['order'] is not None:
        o = np.array(FORCE['order'])
        self._clusterOrder = o
        self._clusterPeriodNoOccur = {int(k): int(n) for k, n in zip(*np.unique(o, return_counts=True))}
    return out


def _p(self):
    if FORCE['order'] is None:
        out = _predict(self).round(2)
    else:
        per, order = self.timeStepsPerPeriod, FORCE['order']
        src = self.timeSeries
        out = src.copy().astype(float)
        for k in set(order):
            ps = [p for p, o in enumerate(order) if o == k]
            for s in range(per):
                rows = [p * per + s for p in ps if p * per + s < len(src)]
                for r in rows:
                    out.iloc[r] = src.iloc[rows].mean(axis=0).round(2)
    self.predicted_used = out
    return out


_C.__init__, _C.createTypicalPeriods, _C.predictOriginalData = _i, _c, _p

# ---------------------------------------------------------------- systems
F = families.F
FAMS = [
    F(onoff=0.7, extra=1, nconv=(0, 1), rmin=0.6, oneff=0.5, prof=0.4, conv=['Boiler', 'CHP', 'Linear', 'Power2Heat']),
    F(onoff=0.6, compon=0.6, starts=0.5, oneff=0.6, hist=0.5, runlim=0.4, extra=0.7, nconv=(1, 1), rmin=0.4, conv=['Boiler', 'CHP', 'HeatPump']),
    F(stor=1, nstor=1, extra=0.7, prof=0.6, onoff=0.2, storinv=0.3),
    F(nconv=(0, 1), pen=0.8, extra=1, prof=0.6, share=0.5, neff=(2, 3), effp=0.8, inv=0.4, trans=0.3, srcsink=0.3),
    F(pw=1, compon=0.5, onoff=0.3, extra=0.4),
]


def system(rng, fam, T, trace=False):
    fp = dict(FAMS[fam])
    fp.update(uneq=0.0, tsp=0.6, T=(T, T), slackfree=0.1 if trace else 0.6)
    while True:
        D = gen.Gen(rng, **fp).system()
        for c in D['comps']:
            if c['cls'] == 'Storage':
                # varying limits of the content have one value more than there are steps: no aggregation
                c['rmin'] = c['rmin'] if not isinstance(c['rmin'], list) else 0.1
                c['rmax'] = c['rmax'] if not isinstance(c['rmax'], list) else 1
        if varies(D):
            return D


def lists(D):
    """(path, list) of all parameters which vary over time"""
    out = []

    def walk(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                if k not in ('prevdt', 'dt', 'prev', 'seg', 'window', 'cap', 'eqs', 'group', 'so', 'si', 'eff', 'esw', 'erun', 'flows', 'par', 'size'):
                    walk(v, path + (k,))
                elif k in ('flows', 'par', 'so', 'eff', 'esw', 'erun', 'eqs', 'seg') and v:
                    walk(v, path + (k,))
        elif isinstance(x, list):
            if len(x) == D['T'] and all(isinstance(y, (int, float)) for y in x) and not (path and path[-1] == 'par'):
                out.append((path, x))
            else:
                for i, y in enumerate(x):
                    walk(y, path + (i,))
    for k in ('comps', 'buses', 'effs'):
        walk(D[k], (k,))
    return out


def varies(D):
    return any(len(set(v)) > 1 for _, v in lists(D))


def used_data(D, B, frame):
    """D with every varying parameter replaced by the aggregated data"""
    E = copy.deepcopy(D)
    T = D['T']

    def of(v, ts):
        """the data of one parameter: as it was, or aggregated"""
        if not isinstance(v, list):
            return v
        if ts is None or ts.label not in frame.columns:
            # the same at all steps
            assert len(set(v)) == 1, 'a varying parameter was not aggregated: %s' % v
            return v
        return [float(x) for x in frame[ts.label]]

    def effs(ev, ts):
        if not ev:
            return ev
        return [[e, of(v, ts[None if e is None else B.effects[e]])] for e, v in ev]

    def onoff(oo, par):
        if not oo:
            return
        for k, n in (('runmin', 'consecutive_on_hours_min'), ('runmax', 'consecutive_on_hours_max'), ('offmin', 'consecutive_off_hours_min'), ('offmax', 'consecutive_off_hours_max')):
            if oo.get(k) is not None:
                oo[k] = of(oo[k], getattr(par, n))
        for k, n in (('esw', 'effects_per_switch_on'), ('erun', 'effects_per_running_hour')):
            if oo.get(k):
                oo[k] = effs(oo[k], getattr(par, n))
    used = {f['bus'] for c in D['comps'] for f in c['flows']}
    for i, (b, o) in enumerate(zip(E['buses'], B.buses)):
        if b['pen'] != 'default' and i in used:
            b['pen'] = of(b['pen'], o.excess_penalty_per_flow_hour)
    for e, o in zip(E['effs'], B.effects):
        e['so'] = [[t, of(v, o.specific_share_to_other_effects_operation[B.effects[t]])] for t, v in e['so']]
        for k, n in (('minph', 'minimum_operation_per_hour'), ('maxph', 'maximum_operation_per_hour')):
            if e.get(k) is not None:
                e[k] = of(e[k], getattr(o, n))
    n = 0
    for c, o in zip(E['comps'], B.comps):
        fl = B.flows[n:n + len(c['flows'])]
        n += len(fl)
        onoff(c.get('onoff'), o.on_off_parameters)
        for f, g in zip(c['flows'], fl):
            for k, a in (('rmin', 'relative_minimum'), ('rmax', 'relative_maximum'), ('prof', 'fixed_relative_profile')):
                f[k] = of(f[k], getattr(g, a))
            f['eff'] = effs(f['eff'], g.effects_per_flow_hour)
            onoff(f['onoff'], g.on_off_parameters)
        if c['cls'] == 'Storage':
            for k, a in (('etac', 'eta_charge'), ('etad', 'eta_discharge'), ('loss', 'relative_loss_per_hour')):
                c[k] = of(c[k], getattr(o, a))
        elif c['cls'] == 'Transmission':
            c['rel'], c['abs'] = of(c['rel'], o.relative_losses), of(c['abs'], o.absolute_losses)
        elif c['cls'] == 'Piecewise':
            c['seg'] = [[[of(a, o.segmented_conversion_factors[g][s][0]), of(b, o.segmented_conversion_factors[g][s][1])] for (a, b), g in zip(row, fl)] for s, row in enumerate(c['seg'])]
        elif c['cls'] == 'Linear':
            c['eqs'] = [[[fi, of(v, d[fl[fi]])] for fi, v in eq] for eq, d in zip(c['eqs'], o.conversion_factors)]
        elif c['cls'] in ('Boiler', 'Power2Heat', 'HeatPump', 'CHP'):
            c['par'] = [of(p, d[fl[0]]) for p, d in zip(c['par'], o.conversion_factors)]
    return E


# ---------------------------------------------------------------- aggregations
def choose(D, rng, real, trace):
    """parameters of the aggregated calculation"""
    T, dt = D['T'], D['dt'][0]
    per = rng.choice([2, 3, 3] if not trace else [2, 3, 4, 5])
    n = -(-T // per)
    a = dict(per=per, data=int(rng.random() < 0.5), store=rng.random() < 0.6, pct=0, pen=0, order=None, chosen=None, real=real)
    if not real:
        u = rng.random()
        k = n if u < 0.15 else 1 if u < 0.4 else rng.randint(1, n)
        a['order'] = [rng.randrange(k) for _ in range(n)] if u >= 0.15 else rng.sample(range(n), n)
        # the library numbers the clusters without gaps
        names = sorted(set(a['order']))
        a['order'] = [names.index(x) for x in a['order']]
    a['nr'] = rng.randint(1, n)
    if rng.random() < 0.5 and not any(c['cls'] == 'Piecewise' for c in D['comps']):
        a['pct'] = rng.choice([10, 20, 34, 40, 60, 100])
        a['pen'] = rng.choice([0, 1, 2.5])
    u = rng.random()
    if u < 0.1:
        a['chosen'] = []
    elif u < 0.5:
        a['chosen'] = rng.sample(range(len(D['comps'])), rng.randint(1, len(D['comps'])))
    a['peaks'] = rng.random() < 0.25
    a['weights'] = rng.random() < 0.4
    return a


def weigh(B, D, rng):
    """marks some series with weights and groups; returns {id of the TimeSeriesData: (weight, group)}"""
    fx = jobs.fx()
    out = []
    for f in B.flows:
        v = f.fixed_relative_profile
        if isinstance(v, (list, np.ndarray)) and len(set(np.array(v))) > 1 and rng.random() < 0.9:
            u = rng.random()
            kw = dict(agg_group=rng.choice('ab')) if u < 0.5 else dict(agg_weight=rng.choice([0.3, 0.5, 0.8])) if u < 0.8 else {}
            f.fixed_relative_profile = t = fx.TimeSeriesData(np.array(v, dtype=float), **kw)
            out.append((f, t, kw))
    return out


def order_of(T, per, seen):
    return [int(x) for x in seen.clusterOrder]


def run(D, a, seed):
    """models the aggregated calculation of D.  Returns (B, calc, frame, boundary problems)"""
    import build
    fx = jobs.fx()
    rng = random.Random(seed)
    Df, idx = windows.origin(D)
    B = build.build(Df)
    marked = weigh(B, D, rng) if a['weights'] else []
    tsd = [t for _, t, _ in marked]
    hi = [t for t in tsd if a['peaks'] and rng.random() < 0.5]
    lo = [t for t in tsd if a['peaks'] and t not in hi and rng.random() < 0.5] if a['peaks'] else []
    kw = dict(time_series_for_high_peaks=hi) if hi else {}
    if lo:
        kw['time_series_for_low_peaks'] = lo
    par = fx.AggregationParameters(hours_per_period=a['per'] * D['dt'][0], nr_of_periods=a['nr'], fix_storage_flows=a['store'], aggregate_data_and_fix_non_binary_vars=bool(a['data']),
                                   percentage_of_period_freedom=a['pct'], penalty_of_period_freedom=a['pen'], **kw)
    chosen = None if a['chosen'] is None else [B.comps[i] for i in a['chosen']]
    calc = fx.AggregatedCalculation('agg', B.fs, par, components_to_clusterize=chosen, time_indices=idx)
    FORCE['order'], FORCE['seen'] = a['order'], []
    np.random.seed(rng.randrange(10**6))
    calc.do_modeling()
    t = FORCE['seen'][-1]
    bad = []
    if t.noTypicalPeriods != a['nr']:
        bad.append('%s typical periods instead of %s' % (t.noTypicalPeriods, a['nr']))
    if abs(t.hoursPerPeriod - a['per'] * D['dt'][0]) > 1e-9:
        bad.append('hours per period %s' % t.hoursPerPeriod)
    if abs(t.resolution - D['dt'][0]) > 1e-9:
        bad.append('resolution %s' % t.resolution)
    groups = {}
    for _, _, k in marked:
        if 'agg_group' in k:
            groups[k['agg_group']] = groups.get(k['agg_group'], 0) + 1
    # a series which is the same at all steps (of the whole system) takes no part
    want = {}
    for f, td, k in marked:
        lab = f.fixed_relative_profile.label
        want[lab] = 1 / groups[k['agg_group']] if 'agg_group' in k else k.get('agg_weight', 1)
    for lab in t.timeSeries.columns:
        w = (t.weightDict or {}).get(lab, 1)
        if abs(w - want.get(lab, 1)) > 1e-9:
            bad.append('weight of %s is %s instead of %s' % (lab, w, want.get(lab, 1)))
    for name, got, sel in (('high', t.addPeakMax, hi), ('low', t.addPeakMin, lo)):
        if sorted(got or []) != sorted(f.fixed_relative_profile.label for f, td, _ in marked if any(td is s for s in sel)):
            bad.append('%s peaks of %s' % (name, got))
    # the data which was clustered is the data of the system, for the steps calculated
    n = 0
    for c in D['comps']:
        for f in c['flows']:
            g = B.flows[n].fixed_relative_profile
            n += 1
            if isinstance(f['prof'], list) and g.label in t.timeSeries.columns and not np.allclose(t.timeSeries[g.label], f['prof']):
                bad.append('data of %s which was clustered' % g.label)
    if t.timeSeries.shape[0] != D['T']:
        bad.append('%d steps clustered instead of %d' % (t.timeSeries.shape[0], D['T']))
    return B, calc, t, bad


def agg_case(cs, D, a, order, has):
    """the aggregation of spec/AggPeriods.tla.  has(path, name): whether there are such decisions"""
    T = D['T']
    chosen = a['chosen'] if a['chosen'] else range(len(D['comps']))
    g = dict(per=a['per'], order=[int(x) + 1 for x in order], data=a['data'], fls=[], sts=[], bin=[], pws=[], maxdev=0, pen=0)
    nf = ni = ns = npw = 0
    for ci, c in enumerate(D['comps']):
        take = ci in chosen and (c['cls'] != 'Storage' or a['store'])
        cp = ('Components', c['label'])

        def item(p, entry):
            g['bin'].append(dict(entry, off=int(has(p, 'off')), sw=int(has(p, 'switchOn')), run=int(has(p, 'consecutiveOnHours')), idle=int(has(p, 'consecutiveOffHours'))))
        for f in c['flows']:
            nf += 1
            p = cp + (f['label'], 'OnOff')
            if f['onoff'] is not None:
                ni += 1
                if take:
                    item(p, dict(k='item', i=ni))
            elif take and has(p, 'on'):
                item(p, dict(k='flow', i=nf))
            if take:
                g['fls'].append(nf)
        if c.get('onoff') is not None:
            ni += 1
            if take:
                item(cp + ('OnOff',), dict(k='item', i=ni))
        if c['cls'] == 'Storage':
            ns += 1
            if take:
                g['sts'].append(ns)
        if c['cls'] == 'Piecewise':
            npw += 1
            if take:
                g['pws'].append(npw)
    first = {}
    pairs = 0
    for p, o in enumerate(g['order']):
        steps = min(a['per'], T - p * a['per'])
        if o in first:
            pairs += max(0, steps - 1)
        first.setdefault(o, p)
    if a['pct'] > 0:
        g['maxdev'] = round(a['pct'] / 100 * pairs)
        if a['pen']:
            g['pen'] = int(round(q(a['pen']) / cs['penscale']))
    half = abs(a['pct'] / 100 * pairs % 1 - 0.5) < 1e-6
    return g, pairs, half


def moves_for(D, cs, g, rng):
    """candidate steps: equated steps mostly have the candidates of the step they are equated with"""
    T, per = D['T'], g['per']
    K = {5: 4, 6: 3, 7: 2, 8: 2}.get(T, 3)
    own = mv.moves(D, cs, cs['szs'], rng, K, pbad=0.12)
    first = {}
    out = [None] * T
    for p, o in enumerate(g['order']):
        for k in range(min(per, T - p * per)):
            t = p * per + k
            if o in first and k > 0 and rng.random() < 0.93:
                r = first[o] * per + k
                ms = list(out[r])
                if len(ms) > 1 and rng.random() < 0.4:
                    ms.pop(rng.randrange(len(ms)))
                if rng.random() < 0.6:
                    m = rng.choice(own[t])
                    if m not in ms:
                        ms.append(m)
                out[t] = ms
            else:
                out[t] = own[t][:rng.choice([1, 2, 3])] if k == 0 else own[t]
        first.setdefault(o, p)
    # keep the number of combinations in check
    n = 1
    for t in range(T):
        while n * len(out[t]) > 6000 and len(out[t]) > 1:
            out[t] = out[t][:-1]
        n *= len(out[t])
    return out


@quietly
def prepare(D, a, seed):
    B, calc, t, bad = run(D, a, seed)
    order = [int(x) for x in t.clusterOrder] if a['order'] is None else a['order']
    E = used_data(D, B, t.predicted_used) if a['data'] else copy.deepcopy(D)
    E.pop('window', None)
    cs = tocase.to_case(E)
    cs['szs'], cs['c0s'], cs['moves'] = [[]], [[]], [[[0]]]
    real = explore.Real(E, cs, system_model=calc.system_model, built=B)

    def has(p, name):
        try:
            real.P.colsof(p + (name,))
            return True
        except KeyError:
            return False
    g, pairs, half = agg_case(cs, D, a, order, has)
    return E, cs, g, pairs, half, real, bad, calc


def tame(E, cs):
    """values the (aggregated) data leads to must be representable"""
    return all(abs(v) < 2000000 for f in cs['flows'] for v in (f['rmin'] + f['rmax'] + f['prof']))


def draw(rng, trace=False):
    fam = rng.randrange(len(FAMS))
    T = rng.choice([4, 5, 6, 6, 7, 8]) if not trace else rng.choice([6, 8, 9, 10, 12])
    if rng.random() < 0.25:
        full = system(rng, fam, T + 3, trace)
        b = rng.randint(0, 3)
        D = windows.cut(full, list(range(b, b + T)))
        if not varies(D):
            D = system(rng, fam, T, trace)
    else:
        D = system(rng, fam, T, trace)
    a = choose(D, rng, rng.random() < (0.25 if not trace else 0.5), trace)
    if a['data'] and any(c['cls'] in ('HPSource', 'CoolingTower') for c in D['comps']):
        a['data'] = 0
    return D, a, rng.randrange(10**9)


def agg_job(P, seed, n, deep=False):
    out = jobs.new_out()
    rng = random.Random(seed)
    work = []
    for _ in range(n):
        D, a, s = draw(rng)
        try:
            E, cs, g, pairs, half, real, bad, calc = prepare(D, a, s)
        except Exception:
            out['dis'].append(dict(kind='agg', D=D, a=a, seed=s, what='the aggregated calculation could not be modelled: ' + traceback.format_exc().strip().splitlines()[-1][:300]))
            continue
        jobs.add(out, 'calculations')
        for b in bad:
            out['dis'].append(dict(kind='agg', D=D, a=a, seed=s, what='clustering: ' + b))
        if half or not tame(E, cs):
            jobs.add(out, 'skipped')
            continue
        cs['szs'], cs['c0s'] = mv.candidates(cs, rng, 2, 2)
        cs['moves'] = moves_for(E, cs, g, rng)
        cs['agg'] = g
        jobs.add(out, 'pairs', pairs)
        jobs.add(out, 'with_freedom', int(a['pct'] > 0))
        jobs.add(out, 'with_aggregated_data', a['data'])
        real.cs = cs
        work.append((D, a, s, E, cs, real))
    if not work:
        return out
    by, st = explore.tlc_explore([w[4] for w in work], module='AggExplore')
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    for (D, a, s, E, cs, real), recs in zip(work, by):
        dis, cnt, cl = explore.replay(E, cs, recs, rng, *((120, 40) if deep else (25, 10)), real=real)
        for k, v in cnt.items():
            jobs.add(out, k, v)
        out['traces'] += cnt['legal'] + cnt['forbidden']
        for k, v in cl.items():
            out['clauses'][k] = out['clauses'].get(k, 0) + v
        if not out['samples'] and cnt['legal']:
            r = rng.choice([r for r in recs if r['k'] == 'L'])
            out['samples'].append(dict(system=D, aggregation=a, behaviour=dict(rates=[cs['moves'][t][m - 1] for t, m in enumerate(r['m'])], record=r)))
        for d in dis:
            out['dis'].append(dict(kind='agg', D=D, a=a, seed=s, cs=cs, d=d, what=jobs.describe(d)))
    return out


def agg_replay(P, item):
    try:
        E, cs, g, pairs, half, real, bad, calc = prepare(item['D'], item['a'], item['seed'])
    except Exception:
        traceback.print_exc()
        return True
    if 'd' not in item:
        print(bad)
        return bool(bad)
    real.cs = item['cs']
    d = item['d']
    if d['kind'] == 'E':
        return False
    r = d['rec']
    if r['k'] == 'L':
        x = real.check_legal(r)
        if x is None and d['what'].startswith('forbidden'):
            for s in range(20):
                x = (real.check_wrong_status(r, random.Random(s), 4) or [None])[0]
                if x:
                    break
    else:
        x = real.check_illegal(r)
    if x:
        print(jobs.describe(x))
    return x is not None


# ---------------------------------------------------------------- results of aggregated calculations
@quietly
def solved(D, a, s):
    E, cs, g, pairs, half, real, bad, calc = prepare(D, a, s)
    if half:
        return None
    try:
        calc.solve(jobs.solver())
    except Exception:
        return None
    cs['agg'] = g
    for k in ('szs', 'c0s', 'moves'):
        cs.pop(k)
    return cs, observe.observe(E, cs, calc.results())


def aggtrace_job(P, seed, n):
    out = jobs.new_out()
    rng = random.Random(seed)
    pairs, items = [], []
    for _ in range(n):
        D, a, s = draw(rng, True)
        try:
            r = solved(D, a, s)
        except Exception:
            out['dis'].append(dict(kind='aggtrace', D=D, a=a, seed=s, what='the aggregated calculation failed: ' + traceback.format_exc().strip().splitlines()[-1][:300]))
            continue
        if r is None:
            jobs.add(out, 'infeasible')
            continue
        if not observe.tractable(r[1]):
            jobs.add(out, 'numbers_too_large')
            continue
        jobs.add(out, 'solved')
        pairs.append(r)
        items.append((D, a, s))
    bad, st = conform.tlc_traces(pairs, module='AggTrace')
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    out['traces'] += len(pairs)
    for (D, a, s), (cs, tr), b in zip(items, pairs, bad):
        if b:
            out['dis'].append(dict(kind='aggtrace', D=D, a=a, seed=s, cs=cs, tr=tr, what='reported results break the rules ' + ', '.join('%s at step %d' % (c, t) for t, c in b[:6])))
    return out


def aggtrace_replay(P, item):
    try:
        r = solved(item['D'], item['a'], item['seed'])
    except Exception:
        traceback.print_exc()
        return True
    if r is None:
        return False
    bad, _ = conform.tlc_traces([r], module='AggTrace')
    print(bad[0])
    return bool(bad[0])


JOBS = dict(agg=agg_job, aggtrace=aggtrace_job)
REPLAY = dict(agg=agg_replay, aggtrace=aggtrace_replay)
