"""C22: registration of elements (spec/Registry.tla) bound to FlowSystem.add_*."""
import json
import os
import random
import tempfile

import numpy as np

import jobs
import tlc
from tocase import NONE

RATES = [1, 5, 25, 125, 625]


def case(rng, depth):
    """a universe of few objects whose labels collide on purpose"""
    pool = ['A', 'B', 'C', 'A__q', 'x']
    nb, nc, ne = rng.choice([2, 2, 3]), rng.choice([2, 3, 3]), rng.choice([1, 2, 2])
    clean = rng.random() < 0.35         # labels which only collide in one way or not at all
    if clean:
        buses = [dict(label='bus%d' % i) for i in range(nb)]
        complabels = ['comp%d' % i for i in range(nc)]
        efflabels = ['eff%d' % i for i in range(ne)]
        u = rng.random()
        if u < 0.2:
            buses[-1]['label'] = buses[0]['label']
        elif u < 0.4:
            complabels[-1] = rng.choice([complabels[0], buses[0]['label'], efflabels[0], complabels[0] + '__q'])
        elif u < 0.6:
            efflabels[-1] = rng.choice([complabels[0], buses[0]['label'], efflabels[0], complabels[0] + '__q'])
        elif u < 0.7:
            buses[0]['label'] = complabels[0] + '__q'
    else:
        buses = [dict(label=rng.choice(pool + ['bus%d' % i] * 3)) for i in range(nb)]
        complabels = [rng.choice(pool + ['comp%d' % i] * 3) for i in range(nc)]
        efflabels = [rng.choice(pool + ['eff%d' % i] * 3) for i in range(ne)]
    effs = [dict(label=efflabels[i], std=int(i == 0 or rng.random() < 0.2), obj=int(i == 0 or rng.random() < 0.2)) for i in range(ne)]
    flows, comps = [], []
    for c in range(nc):
        cls = rng.choice(['Source', 'Sink', 'SourceAndSink', 'Component'])
        nf = dict(Source=1, Sink=1, SourceAndSink=2, Component=rng.choice([1, 2, 3]))[cls]
        if len(flows) + nf > 5:
            cls, nf = 'Sink', 1
        fl = []
        for k in range(nf):
            if len(flows) >= 5 or (cls == 'Component' and flows and rng.random() < 0.08):
                fl.append(rng.randrange(len(flows)))            # a flow used a second time
                continue
            d = dict(Source=1, Sink=0, SourceAndSink=k, Component=rng.choice([0, 1]))[cls]
            es = []
            if rng.random() < 0.7:
                es = [dict(e=rng.choice([0, 0, 1, 1, ne]), v=rng.choice([2, 3]))]
            flows.append(dict(label=rng.choice(['q', 'q%d' % k, 'q%d' % k]) if cls in ('Component', 'SourceAndSink') else rng.choice(['q', 'q', 'p']),
                              bus=rng.randrange(nb), dir=d, rate=RATES[len(flows)], effs=es))
            fl.append(len(flows) - 1)
        if cls != 'Component' and any(flows[f]['dir'] != {'Source': [1], 'Sink': [0], 'SourceAndSink': [0, 1]}[cls][i] for i, f in enumerate(fl)):
            cls = 'Component'
        comps.append(dict(label=complabels[c], cls=cls, flows=fl))
    els = [dict(k='component', i=i + 1) for i in range(nc)] + [dict(k='effect', i=i + 1) for i in range(ne)]
    return dict(buses=buses, flows=flows, comps=comps, effs=effs, els=els, depth=depth)


def tlc_reg(cases):
    slim = [dict(buses=c['buses'], effs=c['effs'], els=c['els'], depth=c['depth'],
                 flows=[dict(f, bus=f['bus'] + 1) for f in c['flows']],
                 comps=[dict(label=k['label'], flows=[f + 1 for f in k['flows']]) for k in c['comps']]) for c in cases]
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(slim, f)
    try:
        recs, st, _ = tlc.run('Registry', dict(CASES=f.name))
    finally:
        os.unlink(f.name)
    by = [[] for _ in cases]
    for r in recs:
        by[r['ci'] - 1].append(r)
    return by, st


T = 2


class World:
    def __init__(self, c):
        import flixOpt as fx
        from flixOpt.elements import Component
        self.fx = fx
        self.c = c
        t = np.datetime64('2020-01-01T00:00') + np.arange(T) * np.timedelta64(1, 'h')
        self.fs = fx.FlowSystem(t, last_time_step_hours=1)
        self.effs = [fx.Effect(e['label'], 'u', 'd', is_standard=bool(e['std']), is_objective=bool(e['obj'])) for e in c['effs']]
        self.buses = [fx.Bus(b['label'], excess_penalty_per_flow_hour=10) for b in c['buses']]
        self.flows = []
        for f in c['flows']:
            d = {(None if x['e'] == 0 else self.effs[x['e'] - 1]): x['v'] for x in f['effs']}
            self.flows.append(fx.Flow(f['label'], bus=self.buses[f['bus']], size=f['rate'], fixed_relative_profile=np.array([1., 1.]),
                                      effects_per_flow_hour=d or None))
        self.comps = [None] * len(c['comps'])
        self.Component = Component

    def comp(self, i):
        """made when it is added first, as users do; the same object afterwards"""
        if self.comps[i] is None:
            k = self.c['comps'][i]
            F = [self.flows[f] for f in k['flows']]
            fx = self.fx
            if k['cls'] == 'Source':
                o = fx.Source(k['label'], source=F[0])
            elif k['cls'] == 'Sink':
                o = fx.Sink(k['label'], sink=F[0])
            elif k['cls'] == 'SourceAndSink':
                o = fx.SourceAndSink(k['label'], sink=F[0], source=F[1], prevent_simultaneous_flows=False)
            else:
                ins = [F[j] for j, f in enumerate(k['flows']) if self.c['flows'][f]['dir'] == 0]
                outs = [F[j] for j, f in enumerate(k['flows']) if self.c['flows'][f]['dir'] == 1]
                o = self.Component(k['label'], inputs=ins, outputs=outs)
            self.comps[i] = o
        return self.comps[i]

    def add(self, el, variant):
        i = el['i'] - 1
        if el['k'] == 'component':
            o = self.comp(i)
            (self.fs.add_components if variant else self.fs.add_elements)(o)
        else:
            (self.fs.add_effects if variant else self.fs.add_elements)(self.effs[i])

    def calc(self):
        calc = self.fx.FullCalculation('c', self.fs)
        calc.do_modeling()
        calc.solve(jobs.solver(), save_results=False)
        return calc.results()


def same(d, objs):
    """the registered objects of one kind are exactly objs"""
    v = list(d.values())
    return len(v) == len(objs) and all(any(x is o for x in v) for o in objs)


def replay(c, rec):
    W = World(c)
    log = []
    for n, h in enumerate(rec['hist']):
        if h['op']:
            el = c['els'][h['op'] - 1]
            lab = (c['comps'] if el['k'] == 'component' else c['effs'])[el['i'] - 1]['label']
            log.append('add %s %r' % (el['k'], lab))
            try:
                W.add(el, (n + len(c['flows'])) % 2)
                ok = 1
            except Exception as e:
                ok = 0
            if ok != h['ok']:
                return '%s was %s' % ('; '.join(log), 'accepted, but collides' if ok else 'rejected without reason')
        else:
            log.append('calculate')
            o = h['out']
            if not any(h['comps']):
                continue            # nothing to calculate: not judged
            try:
                res = W.calc()
                ok = 1
            except Exception as e:
                ok, res = 0, '%s: %s' % (type(e).__name__, e)
            if ok != o['ok']:
                return '%s: the calculation %s' % ('; '.join(log), 'ran though the system is not complete' if ok else 'failed: ' + res[:200])
            if ok:
                what = compare(c, h, o, res)
                if what:
                    return '%s: %s' % ('; '.join(log), what)
        fs = W.fs
        comps = [W.comps[i] for i, x in enumerate(h['comps']) if x]
        flows = [W.flows[f] for i, x in enumerate(h['comps']) if x for f in c['comps'][i]['flows']]
        buses = [W.buses[b] for b in sorted({c['flows'][f]['bus'] for i, x in enumerate(h['comps']) if x for f in c['comps'][i]['flows']})]
        effs = [W.effs[i] for i, x in enumerate(h['effs']) if x]
        for name, d, want in (('components', fs.components, comps), ('effects', fs.effect_collection.effects, effs), ('flows', fs.flows, flows),
                              ('buses', fs.buses, buses), ('elements', fs.all_elements, comps + effs + flows + buses)):
            if not same(d, want):
                return '%s: the %s are %s, should be %s' % ('; '.join(log), name, list(d), [o.label_full for o in want])
    return None


def compare(c, h, o, res):
    comps = [k for i, k in enumerate(c['comps']) if h['comps'][i]]
    if sorted(res['Components']) != sorted(k['label'] for k in comps):
        return 'results of the components %s' % sorted(res['Components'])
    for k in comps:
        for f in k['flows']:
            fl = c['flows'][f]
            got = res['Components'][k['label']][fl['label']]['flow_rate']
            if not np.allclose(got, fl['rate']):
                return 'rate of %s__%s is %s' % (k['label'], fl['label'], got)
    nets = {c['buses'][i]['label']: v for i, v in enumerate(o['net']) if v != NONE}
    if sorted(res['Buses']) != sorted(nets):
        return 'results of the buses %s' % sorted(res['Buses'])
    for b, v in nets.items():
        got = np.asarray(res['Buses'][b]['excess_input']) - np.asarray(res['Buses'][b]['excess_output'])
        if not np.allclose(got, -v):
            return 'bus %s is out of balance by %s, its flows by %s' % (b, got, v)
    effs = {c['effs'][i]['label']: (i, v) for i, v in enumerate(o['eff']) if v != NONE}
    got = {k: v for k, v in res['Effects'].items() if k != 'penalty'}
    if sorted(got) != sorted(effs):
        return 'results of the effects %s' % sorted(got)
    for e, (i, v) in effs.items():
        x = got[e]['all']['all_sum']
        if abs(float(x) - T * v) > 1e-5:
            return 'effect %s is %s, should be %s' % (e, x, T * v)
    return None


def reg_job(P, seed, n, depth=3, most=60):
    rng = random.Random(seed)
    out = jobs.new_out()
    cases = [case(rng, depth) for _ in range(n)]
    by, st = tlc_reg(cases)
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    for c, recs in zip(cases, by):
        jobs.add(out, 'cases')
        # sequences with rejected additions followed by a calculation that runs come first
        def score(r):
            return (any(not h['ok'] for h in r['hist']), r['hist'][-1]['out']['ok'], rng.random())
        recs.sort(key=score, reverse=True)
        pick = recs[:most * 2 // 3]
        rest = recs[most * 2 // 3:]
        pick += rng.sample(rest, min(len(rest), most - len(pick)))
        bad = 0
        for r in pick:
            out['traces'] += 1
            if not all(h['ok'] for h in r['hist']):
                jobs.add(out, 'with rejected additions')
            if r['hist'][-1]['out']['ok']:
                jobs.add(out, 'with a calculation')
            what = replay(c, r)
            if what and bad < 3:
                bad += 1
                out['dis'].append(dict(kind='reg', case=c, rec=r, what=what))
        if not out['samples'] and pick:
            out['samples'].append(dict(case=c, behaviour=pick[0]))
    return out


def reg_replay(P, item):
    what = replay(item['case'], item['rec'])
    print(what)
    return bool(what)


JOBS = dict(reg=reg_job)
REPLAY = dict(reg=reg_replay)
