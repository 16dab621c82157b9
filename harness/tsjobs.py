"""C24: time-dependent data (spec/TimeSeries.tla) bound to flixOpt.core.TimeSeries and its users."""
import json
import os
import random
import tempfile

import numpy as np

import jobs
import tlc
from tocase import NONE


def case(rng, depth):
    T = rng.choice([3, 4, 5])
    ns = rng.choice([2, 3, 4])
    series = []
    for s in range(ns):
        u = rng.random()
        lo = rng.choice([0, 0, 1])
        if u < 0.2:
            d, form = [rng.randint(lo, 9)], 'scalar'
        elif u < 0.35:
            d, form = [rng.choice([0, rng.randint(1, 9)])] * T, rng.choice(['array', 'list'])
        elif u < 0.55:
            d, form = [rng.choice([0, 0, 1]) for _ in range(T)], rng.choice(['array', 'list'])
        else:
            d, form = [10 * (s + 1) + rng.randint(0, 9) for _ in range(T)], rng.choice(['array', 'array', 'list'])
        grp, w = 0, NONE
        wrap = rng.random() < 0.5
        if wrap:
            u = rng.random()
            if u < 0.5:
                grp = rng.choice([1, 1, 2])
            elif u < 0.8:
                w = rng.choice([250, 500, 125])
        # the unit of the data: the specification counts in it
        base, unit = rng.choice([(0, 1), (0, 1), (0, 1e-9), (0, 1e-12), (0, 1e7), (1e6, 1e-3), (0, 0.1), (0, -1)])
        series.append(dict(data=d, form=form, grp=grp, w=w, wrap=wrap, base=base, unit=unit))
    sels = []
    for _ in range(2):
        n = rng.randint(1, T)
        if rng.random() < 0.6:
            a = rng.randint(1, T - n + 1)
            sels.append(dict(ix=list(range(a, a + n)), form=rng.choice(['range', 'list'])))
        else:
            sels.append(dict(ix=sorted(rng.sample(range(1, T + 1), n)), form='list'))
    aggs = []
    for n in (T, len(sels[0]['ix']), rng.choice([1, len(sels[1]['ix'])])):
        u = rng.random()
        aggs.append([rng.randint(100, 999) for _ in range(n)] if u < 0.5 else [rng.choice([0, 0, 100]) for _ in range(n)] if u < 0.65
                    else [0] * n if u < 0.8 else [rng.randint(100, 999)] * n)
    level = rng.choice(['plain', 'system'])
    if level == 'system':
        for s in series:
            s['form'] = 'array' if s['form'] == 'list' else s['form']      # the elements take numbers and arrays
            if s['unit'] < 0:
                s['unit'] = 1
    return dict(T=T, series=series, sels=sels, aggs=aggs, depth=depth, single=sorted(rng.sample(range(1, ns + 1), 1)), level=level)


def tlc_ts(cases):
    slim = [dict(T=c['T'], series=[dict(data=s['data'], grp=s['grp'], w=s['w']) for s in c['series']], sels=[s['ix'] for s in c['sels']], aggs=c['aggs'],
                 depth=c['depth'], single=c['single']) for c in cases]
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(slim, f)
    try:
        recs, st, _ = tlc.run('TimeSeries', dict(CASES=f.name))
    finally:
        os.unlink(f.name)
    by = [[] for _ in cases]
    for r in recs:
        by[r['ci'] - 1].append(r)
    return by, st


class Plain:
    """time series of their own"""

    def __init__(self, c, user):
        from flixOpt.core import TimeSeries
        self.ts = [TimeSeries('s%d' % i, d) for i, d in enumerate(user)]

    def reset(self):
        for t in self.ts:
            t.clear_indices_and_aggregated_data()


class System:
    """time series of the flows of a flow system"""

    def __init__(self, c, user):
        import flixOpt as fx
        t = np.datetime64('2020-01-01T00:00') + np.arange(c['T']) * np.timedelta64(1, 'h')
        self.fs = fx.FlowSystem(t, last_time_step_hours=1)
        self.fs.add_elements(fx.Effect('e', 'x', 'e', is_standard=True, is_objective=True))
        b = fx.Bus('b')
        self.fl = []
        for i, d in enumerate(user):
            f = fx.Flow('f', bus=b, size=100, relative_maximum=d) if i % 2 else fx.Flow('f', bus=b, size=100, effects_per_flow_hour=d)
            self.fl.append(f)
            self.fs.add_elements(fx.Source('s%d' % i, source=f))
        self.fs.transform_data()

    @property
    def ts(self):
        out = []
        for i, f in enumerate(self.fl):
            x = f.relative_maximum if i % 2 else f.effects_per_flow_hour
            if isinstance(x, dict):
                (x,) = x.values()
            out.append(x)
        return out

    def reset(self):
        self.fs.transform_data()


def scaled(s, d):
    return [s['base'] + s['unit'] * x for x in d]


def give(s):
    d = scaled(s, s['data'])
    x = d[0] if s['form'] == 'scalar' else np.array(d, dtype=float) if s['form'] == 'array' else list(d)
    if s['wrap']:
        from flixOpt.core import TimeSeriesData
        return TimeSeriesData(x, agg_group='g%d' % s['grp'] if s['grp'] else None, agg_weight=s['w'] / 1000 if s['w'] != NONE else None), x
    return x, x


def replay(c, rec):
    from flixOpt.aggregation import TimeSeriesCollection
    pairs = [give(s) for s in c['series']]
    raw = [x for _, x in pairs]
    keep = [np.array(x) for x in raw]
    O = (Plain if c['level'] == 'plain' else System)(c, [u for u, _ in pairs])

    def ind(j):
        if j == 0:
            return None
        ix = [i - 1 for i in c['sels'][j - 1]['ix']]
        return range(ix[0], ix[-1] + 1) if c['sels'][j - 1]['form'] == 'range' else ix
    ops = []
    n = len(c['series'])
    for h in rec['hist']:
        op = h['op']
        ops.append({k: v for k, v in op.items()})
        ts = O.ts
        if op['k'] == 'reset':
            O.reset()
        elif op['k'] == 'selall':
            for t in ts:
                t.activate_indices(ind(op['j']))
        elif op['k'] == 'sel':
            ts[op['s'] - 1].activate_indices(ind(op['j']))
        elif op['k'] == 'selagg':
            ts[op['s'] - 1].activate_indices(ind(op['j']), np.array(scaled(c['series'][op['s'] - 1], c['aggs'][op['a'] - 1]), dtype=float))
        else:
            coll = TimeSeriesCollection([t for t in ts if t.is_array])
            d = {}
            for s, t in enumerate(ts):
                x = op['j'] if s + 1 <= n // 2 else op['a']
                if x and t.is_array:
                    d[t.label] = np.array(scaled(c['series'][s], c['aggs'][x - 1]), dtype=float)
            coll.insert_data(d)
        ts = O.ts
        for s, t in enumerate(ts):
            if t.is_array != bool(h['arr'][s]):
                return 'series %d: is_array %s' % (s, t.is_array)
            want = np.array(scaled(c['series'][s], h['v'][s]), dtype=float)
            got = np.array(t.active_data, dtype=float)
            full = np.full(len(want), float(got)) if got.ndim == 0 else got
            if full.shape != want.shape or not np.array_equal(full, want):
                return 'series %d yields %s after %s, should be %s' % (s, got.tolist(), ops, want.tolist())
            if t.active_indices is not None:
                vec = np.asarray(t.active_data_vector, dtype=float)
                if vec.shape != want.shape or not np.array_equal(vec, want):
                    return 'series %d has the vector %s after %s, should be %s' % (s, vec.tolist(), ops, want.tolist())
        for s, (a, b) in enumerate(zip(raw, keep)):
            if not np.array_equal(np.array(a), b):
                return "the user's data of series %d became %s after %s" % (s, a, ops)
    ts = [t for t in O.ts if t.is_array]
    for _ in range(2):
        w = TimeSeriesCollection(ts).weights
        for s, t in enumerate(O.ts):
            if t.is_array and abs(w[t.label] - rec['w'][s]['n'] / rec['w'][s]['d']) > 1e-9:
                return 'weight of series %d is %s, should be %s/%s' % (s, w[t.label], rec['w'][s]['n'], rec['w'][s]['d'])
    return None


def ts_job(P, seed, n, depth=3, most=1500):
    rng = random.Random(seed)
    out = jobs.new_out()
    cases = [case(rng, depth) for _ in range(n)]
    by, st = tlc_ts(cases)
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    for c, recs in zip(cases, by):
        jobs.add(out, 'cases')
        if len(recs) > most:
            recs = rng.sample(recs, most)
        bad = 0
        for r in recs:
            out['traces'] += 1
            what = replay(c, r)
            if what and bad < 3:
                bad += 1
                out['dis'].append(dict(kind='ts', case=c, rec=r, what=what))
        if not out['samples'] and recs:
            out['samples'].append(dict(case=c, behaviour=recs[-1]))
    return out


def ts_replay(P, item):
    what = replay(item['case'], item['rec'])
    print(what)
    return bool(what)


JOBS = dict(ts=ts_job)
REPLAY = dict(ts=ts_replay)
