"""C15: systems for which the specification decides exhaustively whether a schedule exists and what
the cheapest one costs (spec/Optimum.tla), compared with what a calculation returns."""
import itertools
import os
import random
import shutil
import tempfile
import traceback

import numpy as np

import conform
import explore
import gen
import jobs
import milp
import observe
import tocase
from tocase import flow_list, lst


class Discrete(gen.Gen):
    """Systems in which every flow is fixed, on at one rate or off, or follows from the others"""

    def __init__(self, rng):
        super().__init__(rng, T=(2, 4), neff=(1, 3), runlim=0.2, starts=0.3, onhours=0.2, oneff=0.6, effp=0.6, tsp=0.5, hist=0.5, share=0.5, dup=0.0)
        self.options = {}       # component label -> function(t, sizes) -> list of rate tuples

    def unitflow(self, label, bus, role, size=None, inv=None):
        fl = self.flow(label, bus, role)
        s = size or self.r.choice([2, 4, 5, 8, 10])
        fl.update(size=dict(kind='num', v=s) if inv is None else inv, rmin=1, rmax=1, prof=None, lfmin=None, lfmax=None,
                  onoff=self.onoffpar() if self.r.random() < 0.5 else {})
        if self.r.random() < 0.3:
            lv = self.ts([0.5, 0.8, 1], force=True)
            fl.update(rmin=lv, rmax=lv)
        return fl

    def freeflow(self, label, bus, role):
        fl = self.flow(label, bus, role)
        fl.update(size=None, rmin=0, rmax=1, prof=None, onoff=None, lfmin=None, lfmax=None)
        return fl

    def fixedinv(self):
        iv = self.invest(seg_ok=False)
        iv.update(fixed=self.r.choice([4, 5, 8, 10]), min=None, max=None, seg=None)
        return iv

    def make(self):
        r = self.r
        T = self.T = r.randint(2, 4)
        dt = [r.choice([0.5, 1, 1, 2]) for _ in range(T)] if r.random() < 0.7 else [1] * T
        self.dt = dt
        self.neff = r.randint(1, 3)
        order = list(range(self.neff))
        r.shuffle(order)
        self.std = r.choice(order)
        self.obj = self.std if r.random() < 0.7 else r.choice(order)
        effs = [dict(label='e%d' % e, so=[], si=[]) for e in range(self.neff)]
        for a, b in itertools.combinations(order, 2):
            if self.p('share'):
                effs[a]['so'].append([b, self.ts([0.5, 0.1, 2])])
            if self.p('share'):
                effs[a]['si'].append([b, r.choice([0.5, 0.1, 2])])
        D = self.D = dict(T=T, dt=dt, prevdt=None, std=self.std, obj=self.obj, effs=effs, buses=[], comps=[], seed=r.randrange(10**6))
        if r.random() < 0.3:
            D['prevdt'] = r.choice([0.5, 1, 2])
        kind = r.choice(['pen', 'pen', 'pen', 'pen', 'source', 'sink', 'none'])     # what balances the main bus
        D['buses'].append(dict(label='H', pen=self.ts([1, 2, 5, 10, 20]) if kind == 'pen' else None))
        O = self.options
        # demand
        dem = self.flow('q', 0, 'snk')
        lv = [r.choice([2, 4, 5, 6, 8, 9, 10, 12]) for _ in range(T)]
        dem.update(size=dict(kind='num', v=1), rmin=0, rmax=1, prof=lv, onoff=None, fhmin=None, fhmax=None, lfmin=None, lfmax=None, eff=[])
        D['comps'].append(dict(cls='Sink', label='dem', flows=[dem]))
        O['dem'] = lambda t, sz: [(lv[t],)]
        for i in range(r.choice([1, 2, 2, 3] if T < 4 else [1, 2, 2])):
            self.unit('U%d' % i)
        if r.random() < 0.4:
            self.dstorage('S')
        if kind in ('source', 'sink'):
            fl = self.freeflow('f', 0, 'src' if kind == 'source' else 'snk')
            if r.random() < 0.5:
                fl['size'] = dict(kind='num', v=r.choice([4, 8, 12]))
            fl['eff'] = self.effvals([0.1, 0.5, 1, 2, 4])
            D['comps'].append(dict(cls=kind.capitalize(), label='slackH', flows=[fl], slackof=0))
        r.shuffle(D['comps'])
        return D

    def side(self, label, role):
        """a bus which only exists to be supplied or emptied by one free flow"""
        for i, b in enumerate(self.D['buses']):
            if b['label'] == label:
                return i
        self.D['buses'].append(dict(label=label, pen=None))
        i = len(self.D['buses']) - 1
        fl = self.freeflow('f', i, role)
        fl['eff'] = self.effvals([0.1, 0.5, 1, 2] if role == 'src' else [-0.1, -0.5, -1, 0.1])
        self.D['comps'].append(dict(cls='Source' if role == 'src' else 'Sink', label='side' + label, flows=[fl], slackof=i))
        return i

    def unit(self, lab):
        r = self.r
        inv = self.fixedinv() if r.random() < 0.35 else None
        kind = r.choice(['Source', 'Source', 'Boiler', 'Power2Heat', 'CHP', 'HeatPump', 'Points', 'Sink'])
        if kind == 'Sink' and inv is None:
            inv = None
        comp = dict(cls=kind, label=lab, par=[], onoff=None)
        main = self.unitflow('th', 0, 'snk' if kind == 'Sink' else 'src', inv=inv)

        def levels(t, sz):
            v = {0.0}
            rm = lst(main['rmax'], self.T)[t]
            v.add((inv['fixed'] if inv else main['size']['v']) * rm)
            return sorted(v)
        if kind in ('Source', 'Sink'):
            comp['flows'] = [main]
            self.options[lab] = lambda t, sz: [(x,) for x in levels(t, sz)]
        elif kind in ('Boiler', 'Power2Heat', 'HeatPump'):
            b = self.side('G' if kind == 'Boiler' else 'P', 'src')
            par = self.ts([0.5, 0.8, 0.4] if kind != 'HeatPump' else [2, 4, 2.5])
            comp['par'] = [par]
            comp['flows'] = [self.freeflow('fin', b, 'conv'), main]
            self.options[lab] = lambda t, sz: [(x / lst(par, self.T)[t], x) for x in levels(t, sz)]
        elif kind == 'CHP':
            g, e = self.side('G', 'src'), self.side('E', 'snk')
            a, b = self.ts([0.5, 0.4, 0.25]), self.ts([0.2, 0.4, 0.25])
            comp['par'] = [a, b]
            comp['flows'] = [self.freeflow('fu', g, 'conv'), main, self.freeflow('el', e, 'conv')]
            self.options[lab] = lambda t, sz: [(x / lst(a, self.T)[t], x, x / lst(a, self.T)[t] * lst(b, self.T)[t]) for x in levels(t, sz)]
        else:
            g = self.side('G', 'src')
            comp['cls'] = 'Piecewise'
            fs = [self.freeflow('fu', g, 'conv'), self.freeflow('th', 0, 'conv')]
            for fl in fs:
                fl['size'] = dict(kind='num', v=40)
            pts = [(r.choice([4, 5, 8, 10]), r.choice([2, 4, 5, 8])) for _ in range(r.choice([2, 2, 3]))]
            comp['seg'] = [[[a, a], [b, b]] for a, b in pts]
            comp['onoff'] = self.onoffpar(True) if r.random() < 0.7 else None
            comp['flows'] = fs
            pts = sorted(set(pts + ([(0, 0)] if comp['onoff'] is not None else [])))
            self.options[lab] = lambda t, sz: pts
        if kind != 'Points' and kind not in ('Source', 'Sink') and r.random() < 0.3:
            comp['onoff'] = self.onoffpar(True)
            for fl in comp['flows']:
                if fl['size'] is None:
                    fl['size'] = dict(kind='num', v=100)
        self.D['comps'].append(comp)

    def dstorage(self, lab):
        r = self.r
        ch, dis = self.unitflow('in', 0, 'stor', r.choice([2, 4, 5])), self.unitflow('out', 0, 'stor', r.choice([2, 4, 5]))
        s = dict(cls='Storage', label=lab, flows=[ch, dis], excl=True)
        s['cap'] = self.fixedinv() if r.random() < 0.25 else r.choice([8, 10, 20])
        if isinstance(s['cap'], dict):
            s['cap']['opt'] = False     # otherwise the initial content had to fit both decisions
        s['rmin'], s['rmax'] = r.choice([0, 0, 0.1]), r.choice([1, 1, 0.8])
        s['etac'], s['etad'], s['loss'] = self.ts([1, 0.9, 0.8]), self.ts([1, 0.8, 0.5]), r.choice([0, 0, 0.1])
        cap = s['cap']['fixed'] if isinstance(s['cap'], dict) else s['cap']
        s['init'] = r.choice([0, 2, 4])
        s['fmin'] = r.choice([1, 2, 3]) if r.random() < 0.3 else None
        s['fmax'] = r.choice([3, 5, 0]) if r.random() < 0.3 else None
        sizes = [fl['size']['v'] for fl in (ch, dis)]

        def opts(t, sz):
            c = sizes[0] * lst(ch['rmax'], self.T)[t]
            d = sizes[1] * lst(dis['rmax'], self.T)[t]
            return [(0, 0), (c, 0), (0, d)]
        self.options[lab] = opts
        self.D['comps'].append(s)


def all_moves(G, D, cs):
    """every step there is; None if too many"""
    first, n = {}, 0
    for comp in D['comps']:
        first[comp['label']] = n
        n += len(comp['flows'])
    res = []
    slack = {comp['slackof']: comp for comp in D['comps'] if comp.get('slackof') is not None}
    free = [c for c in D['comps'] if c.get('slackof') is None]
    for t in range(D['T']):
        lists = [G.options[c['label']](t, None) for c in free]
        k = 1
        for l in lists:
            k *= len(l)
        if k > {2: 60, 3: 26, 4: 14}[D['T']]:
            return None
        out = []
        for combo in itertools.product(*lists):
            v = [0] * n
            for c, loc in zip(free, combo):
                for j, x in enumerate(loc):
                    v[first[c['label']] + j] = int(round(x * 10000))
            for bus, comp in slack.items():
                i = first[comp['label']]
                net = sum(f['sgn'] * v[j] for j, f in enumerate(cs['flows']) if f['bus'] == bus + 1 and j != i)
                v[i] = -net * cs['flows'][i]['sgn']
            out.append(v)
        res.append(out)
    return res


def limits(D, cs, recs, rng):
    """limits of the effects near the totals schedules have, so that they bind or exclude everything"""
    return jobs.tighten(D, cs, recs, rng, 'eff')


def opt_job(P, seed, n):
    rng = random.Random(seed)
    out = jobs.new_out()
    Ds, cases = [], []
    while len(Ds) < n:
        G = Discrete(rng)
        D = G.make()
        cs = tocase.to_case(D)
        m = all_moves(G, D, cs)
        if m is None:
            continue
        cs['moves'] = m
        opts = [[iv['fixed'], 0] if iv['opt'] else [iv['fixed']] for iv in cs['invs']]
        cs['szs'] = [list(x) for x in itertools.product(*opts)]
        if len(cs['szs']) > 4:
            continue
        cs['c0s'] = [[s['init'] for s in cs['stors']]]
        Ds.append(D)
        cases.append(cs)
    # limits from what the unlimited systems do
    lim = [i for i in range(n) if rng.random() < 0.5]
    if lim:
        by, st = explore.tlc_explore([cases[i] for i in lim], 'Optimum')
        out['states'] += st['states']
        out['transitions'] += st['transitions']
        for i, recs in zip(lim, by):
            d = limits(Ds[i], cases[i], recs, rng)
            if d is not None:
                c = tocase.to_case(d)
                c.update({k: cases[i][k] for k in ('szs', 'c0s', 'moves')})
                Ds[i], cases[i] = d, c
    by, st = explore.tlc_explore(cases, 'Optimum')
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    pairs = []
    for D, cs, recs in zip(Ds, cases, by):
        dis, info = judge(D, cs, recs)
        for k, v in info.items():
            if k != 'tr':
                jobs.add(out, k, v)
        out['traces'] += 1
        if info.get('tr') is not None:
            pairs.append((D, cs, info['tr']))
        for w in dis:
            out['dis'].append(dict(kind='opt', D=D, cs=cs, recs=recs if len(recs) < 3000 else recs[:3000], what=w))
        if len(out['samples']) < 1 and recs:
            out['samples'].append(dict(system=D, schedules=len([r for r in recs if r['k'] == 'L']), cheapest=best(cs, recs)))
    bad, st = conform.tlc_traces([(cs, tr) for _, cs, tr in pairs])
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    for (D, cs, tr), b in zip(pairs, bad):
        b = [x for x in b if x[1].startswith('C15')]
        if b:
            out['dis'].append(dict(kind='trace', D=D, cs=cs, tr=tr, clauses=b, what='reported results break the rules ' + ', '.join('%s at step %d' % (c, s) for s, c in b[:6])))
    return out


def cost(cs, r):
    return (r['obj'] + r['pen'] * cs['penscale']) / 1e4


def best(cs, recs):
    L = [r for r in recs if r['k'] == 'L']
    return min((cost(cs, r) for r in L), default=None)


def values(x, path=''):
    """what a results dictionary holds besides the time stamps"""
    if isinstance(x, dict):
        return [y for k, v in x.items() if not str(k).startswith('Time') for y in values(v, path + '/' + str(k))]
    return [] if x is None else [path]


def at_edge(real, r):
    """the schedule exists only within the tolerance of the specification"""
    pins = real.pins(r)
    return real.P.solve(pins)[0] != 'optimal' and real._boxed(pins, explore.WIDE)[0] == 'optimal'


def rounded(D, cs, fits):
    """the same problem, solved with other settings, has the answer the specification gives: the first
    answer came from what the solver tolerates (a decision of 1e-6 times a bound of 100 is a rate above the
    threshold of 1e-5), not from the problem"""
    h = explore.Real(D, cs).P.h
    for opts in (dict(presolve='on'), dict(mip_feasibility_tolerance=1e-10, primal_feasibility_tolerance=1e-9),
                 dict(presolve='on', mip_feasibility_tolerance=1e-10, primal_feasibility_tolerance=1e-9)):
        for k, v in dict(dict(presolve='off', mip_feasibility_tolerance=1e-6, primal_feasibility_tolerance=1e-7, mip_rel_gap=1e-7), **opts).items():
            h.setOptionValue(k, v)
        h.clearSolver()
        h.run()
        ok = h.getModelStatus() == milp.highspy.HighsModelStatus.kOptimal
        if fits(h.getInfo().objective_function_value if ok else None):
            return True
    return False


def judge(D, cs, recs):
    """(list of what is wrong, information)"""
    import build
    L = [r for r in recs if r['k'] == 'L']
    unclear = any(r['k'] == 'A' for r in recs)
    B = build.build(D)
    fx = jobs.fx()
    calc = fx.FullCalculation('opt', B.fs)
    d = tempfile.mkdtemp(prefix='opt_')
    info = {}
    try:
        calc.do_modeling()
        sol = jobs.solver(1e-7)
        try:
            calc.solve(sol, save_results=d)
            res = calc.results()
            failed = None
        except Exception as e:
            failed = e
        files = sorted(f for f in os.listdir(d) if not f.endswith('.log'))
        if failed is not None:
            if unclear and not L:
                return [], dict(unclear=1)
            out = []
            if L:
                r = min(L, key=lambda r: cost(cs, r))
                real = explore.Real(D, cs)
                if at_edge(real, r):
                    return [], dict(edge=1)
                if rounded(D, cs, lambda x: x is not None):
                    return [], dict(rounding=1)
                return ['a schedule exists (cost %.4f), but the calculation ends with %r' % (cost(cs, r), str(failed)[:150])], dict(solved=1)
            if files:
                out.append('no schedule exists, the calculation fails, but leaves results: %s' % files)
            try:
                r = values(calc.results())
            except Exception:
                r = []
            if r:
                out.append('no schedule exists, the calculation fails, but results() returns values: %s' % r[:5])
            return out, dict(impossible=1)
        obj = float(res['Objective'])
        if not L:
            if unclear:
                return [], dict(unclear=1)
            if rounded(D, cs, lambda x: x is None):
                return [], dict(rounding=1)
            return ['no schedule exists, but the calculation returns one (objective %.4f)' % obj], dict(impossible=1)
        b = best(cs, recs)
        tol = 0.02 + 2e-5 * abs(b) + (0.002 * cs['penscale'] if cs['penscale'] > 1 else 0)
        info = dict(solved=1, several=int(len(L) > 1))
        try:
            info['tr'] = observe.observe(D, cs, res)
            if not observe.tractable(info['tr']):
                info['tr'] = None
        except observe.Missing as e:
            return ['the results lack %s' % e], info
        out = []
        if obj > b + tol:
            r = min(L, key=lambda r: cost(cs, r))
            real = explore.Real(D, cs)
            if at_edge(real, r):
                return [], dict(edge=1, tr=info['tr'])
            if rounded(D, cs, lambda x: x is not None and x <= b + tol):
                return [], dict(rounding=1)
            out.append('the calculation returns a schedule of cost %.4f, the cheapest costs %.4f' % (obj, b))
        elif obj < b - tol and not unclear:
            if rounded(D, cs, lambda x: x is None or x >= b - tol):
                return [], dict(rounding=1)
            out.append('the calculation returns a schedule of cost %.4f, none is cheaper than %.4f' % (obj, b))
        if sol.best_bound is not None and sol.best_bound > obj + tol:
            out.append('the reported lower bound %.4f is above the objective %.4f' % (sol.best_bound, obj))
        if abs(sol.objective - obj) > 1e-6 * max(1, abs(obj)):
            out.append('the objective of the solver %.4f differs from the reported one %.4f' % (sol.objective, obj))
        if not files:
            out.append('nothing was saved')
        return out, info
    finally:
        shutil.rmtree(d, ignore_errors=True)


def opt_replay(P, item):
    try:
        dis, _ = judge(item['D'], item['cs'], item['recs'])
    except Exception:
        traceback.print_exc()
        return True
    for w in dis:
        print(w)
    return bool(dis)


JOBS = dict(opt=opt_job)
REPLAY = dict(opt=opt_replay)


# ---------------------------------------------------------------- problems whose optimum needs a search: the solver gap
def random_selection(rng):
    n = rng.randint(12, 22)
    rates = [rng.randint(20, 60) for _ in range(n)]
    units = [[s, int(round(s * rng.uniform(0.9, 1.1))) + rng.randint(0, 3)] for s in rates]
    way = rng.choice(['invest', 'invest', 'on'])
    need = [int(sum(rates) * rng.uniform(0.3, 0.7)) for _ in range(2 if way == 'on' else 1)]
    return dict(units=units, need=need, way=way, gap=rng.choice([1e-6, 1e-6, 1e-4, 0.05]), dt=rng.choice([1, 2, 0.5]))


def solved_selection(q):
    """objective and bound of the real calculation"""
    fx = jobs.fx()
    dt = q['dt']
    t0 = np.datetime64('2021-03-01T00:00')
    fs = fx.FlowSystem(np.array([t0, t0 + np.timedelta64(int(60 * dt), 'm')]), last_time_step_hours=dt)
    c = fx.Effect('c', '', '', is_standard=True, is_objective=True)
    b = fx.Bus('b', excess_penalty_per_flow_hour=None)
    fs.add_elements(c)
    for i, (s, k) in enumerate(q['units']):
        if q['way'] == 'invest':
            f = fx.Flow('q', bus=b, size=fx.InvestParameters(fixed_size=s, optional=True, fix_effects=k))
        else:
            f = fx.Flow('q', bus=b, size=s, relative_minimum=1, on_off_parameters=fx.OnOffParameters(effects_per_running_hour=k))
        fs.add_elements(fx.Source('s%d' % i, source=f))
    need = q['need'] if q['way'] == 'on' else [q['need'][0], q['need'][0] - 1]
    fs.add_elements(fx.Sink('d', sink=fx.Flow('q', bus=b, size=1, fixed_relative_profile=np.array(need, dtype=float))))
    if q['way'] == 'on':
        fs.add_elements(fx.Sink('rest', sink=fx.Flow('q', bus=b)))
    calc = fx.FullCalculation('x', fs)
    calc.do_modeling()
    calc.solve(jobs.solver(q['gap']))
    return float(calc.results()['Objective']), float(calc.system_model.main_results['lower bound'])


def selection_wrong(q, costs):
    opt = sum(costs) * (q['dt'] if q['way'] == 'on' else 1)
    o, low = solved_selection(q)
    tol = 1e-4 * opt
    if o < opt - tol:
        return 'objective %g is less than the cheapest selection %g' % (o, opt)
    if low > opt + tol:
        return 'the lower bound %g is above the cheapest selection %g' % (low, opt)
    if o - opt > q['gap'] * max(abs(o), 1e-9) + tol:
        return 'objective %g with a gap of %g, the cheapest selection costs %g' % (o, q['gap'], opt)
    return None


def selections(qs):
    """what the specification says: the costs of each need"""
    import figjobs
    cases = [dict(units=q['units'], need=n) for q in qs for n in q['need']]
    rs, st = figjobs.ask('Selection', cases)
    it = iter(rs)
    return [[next(it)['cost'] for _ in q['need']] for q in qs], st


def gap_job(P, seed, n):
    rng = random.Random(seed)
    out = jobs.new_out()
    qs = [random_selection(rng) for _ in range(n)]
    costs, st = selections(qs)
    for k in ('states', 'transitions'):
        out[k] += st[k]
    for q, c in zip(qs, costs):
        out['traces'] += 1
        jobs.add(out, 'selections')
        bad = selection_wrong(q, c)
        if bad:
            out['dis'].append(dict(kind='gap', q=q, what=bad))
    return out


def gap_replay(P, item):
    costs, _ = selections([item['q']])
    bad = selection_wrong(item['q'], costs[0])
    print(bad)
    return bool(bad)


JOBS['gap'] = gap_job
REPLAY['gap'] = gap_replay
