"""Random descriptions of energy systems ("desc"): what a user states, in natural units.

A desc is JSON-able.  It is turned into a case of spec/EnergySystem.tla by tocase.py and into
flixOpt objects by build.py; nothing here decides what is allowed, the specification does.
"""
import itertools
import random

DTS = [0.25, 0.5, 1, 1, 1, 1.5, 2, 3]
SIZES = [4, 5, 8, 10, 12.5, 20]
ETAS = [0.5, 0.8, 0.4, 0.25, 1.25, 0.625]
COPS = [2, 2.5, 4, 5]


def pick(rng, p, a, b=None):
    return a if rng.random() < p else b


class Gen:
    """Draws one description; `f` maps feature names to probabilities/options."""

    def __init__(self, rng, **f):
        self.r = rng
        self.f = dict(
            T=(2, 4), uneq=0.7, tsp=0.4, pen=0.5, defpen=0.0, neff=(1, 3), share=0.5, lim=0.0, onoff=0.3, compon=0.15,
            hist=0.5, runlim=0.5, starts=0.4, oneff=0.4, onhours=0.3, inv=0.25, invopt=0.6, invseg=0.3, fh=0.2, lf=0.2,
            prof=0.3, rmin=0.5, conv=['Boiler', 'Power2Heat', 'HeatPump', 'CHP', 'CoolingTower', 'HPSource', 'Linear'],
            nconv=(0, 1), pw=0.0, stor=0.3, storinv=0.3, nstor=1, trans=0.0, srcsink=0.15, excl=0.0, nosize=0.3,
            extra=0.5, effp=0.5, slackfree=0.6, subsidy=0.25, dup=0.0, nil=0.04,
        )
        self.f.update(f)

    def p(self, name):
        return self.r.random() < self.f[name]

    # -- values -----------------------------------------------------------
    def ts(self, vals, T=None, force=None):
        """scalar or per-step list drawn from vals"""
        T = T or self.T
        if force is None:
            force = self.p('tsp')
        return [self.r.choice(vals) for _ in range(T)] if force else self.r.choice(vals)

    def effvals(self, vals, ts=True, none_ok=True):
        """effect values: list of [effect index | None, value]"""
        n = self.r.randint(1, min(2, self.neff))
        es = self.r.sample(range(self.neff), n)
        out = []
        for e in es:
            v = self.ts(vals) if ts else self.r.choice(vals)
            out.append([None if (none_ok and e == self.std and self.r.random() < 0.4) else e, v])
        if ts and none_ok and self.p('dup'):
            # the standard effect twice, by name and without a name
            out = [x for x in out if x[0] not in (None, self.std)] + [[None, self.r.choice(vals)], [self.std, self.r.choice(vals)]]
            self.r.shuffle(out)
            self.D['dup'] = True
        return out

    # -- pieces -------------------------------------------------------------
    def invest(self, flow=True, seg_ok=True):
        r = self.r
        iv = dict(kind='inv', fixed=None, min=None, max=None, opt=self.p('invopt'), fix=[], div=[], spec=[], seg=None)
        u = r.random()
        if u < 0.25:
            iv['fixed'] = r.choice(SIZES)
        else:
            iv['min'] = r.choice([0, 0, 2, 4, 5])
            iv['max'] = r.choice([10, 12.5, 20])
        if self.p('nil'):
            # nothing may be built
            iv['fixed'], iv['min'], iv['max'] = (0, None, None) if not iv['opt'] and r.random() < 0.5 else (None, 0, 0)
        less = self.p('subsidy')
        if r.random() < 0.5:
            iv['fix'] = self.effvals([1, 5, 10, 12.5] + [-5, -12.5, -30] * less, ts=False)
        if r.random() < 0.5:
            iv['spec'] = self.effvals([0.1, 0.5, 1, 2, 2.5] + [-0.5, -1.5] * less, ts=False)
        if r.random() < 0.4:
            iv['div'] = self.effvals([2, 3, 7.5] + [-4, -6] * less, ts=False)
        if seg_ok and iv['fixed'] is None and iv['max'] and self.p('invseg'):
            # segments within [min, max]; cost may jump, decrease, have gaps
            lo, hi = iv['min'], iv['max']
            pts = sorted(r.sample([round(lo + (hi - lo) * k / 8, 4) for k in range(9)], 4))
            if r.random() < 0.5:
                xs = [[pts[0], pts[1]], [pts[1], pts[3]]]
            else:
                xs = [[pts[0], pts[1]], [pts[2], pts[3]]]
            u = r.random()
            if u < 0.4:
                xs = [[lo, pts[1] if pts[1] > lo else hi]] + ([[pts[2], hi]] if pts[2] < hi else [])
            elif u < 0.6:
                xs = [[pts[0], pts[1]], [pts[1], pts[2]], [pts[2], pts[3]]]
                if r.random() < 0.3:
                    r.shuffle(xs)
            es = r.sample(range(self.neff), r.randint(1, min(2, self.neff)))
            ys = []
            for e in es:
                y = [[r.choice([0, 5, 10, 20] + [-8] * less), r.choice([4, 10, 25, 30] + [-3] * less)] for _ in xs]
                if r.random() < 0.6:    # no jump where two segments meet
                    for k in range(1, len(xs)):
                        if xs[k][0] == xs[k - 1][1]:
                            y[k][0] = y[k - 1][1]
                ys.append([e, y])
            iv['seg'] = [xs, ys]
        return iv

    def onoffpar(self, comp=False):
        r = self.r
        oo = {}
        if self.p('runlim'):
            tot = sum(self.dt)
            ch = [0.5, 1, 1.5, 2, 3, 4, 5, 6]
            for k in r.sample(['runmin', 'runmax', 'offmin', 'offmax'], r.choice([1, 1, 2, 2, 3])):
                oo[k] = self.ts(ch)
            # a maximum below the minimum of the same kind makes nothing feasible: allowed, but rarely useful
            for a, b in (('runmin', 'runmax'), ('offmin', 'offmax')):
                if a in oo and b in oo and r.random() < 0.8:
                    oo[b] = self.ts([3, 4, 5, 6])
                    oo[a] = self.ts([0.5, 1, 1.5, 2, 3])
        if self.p('starts'):
            oo['swmax'] = r.choice([0, 1, 1, 2])
        if self.p('onhours'):
            q = [d for d in _subset_sums(self.dt)]
            if r.random() < 0.6:
                oo['hmax'] = 0 if r.random() < 0.1 else r.choice(q)
            if r.random() < 0.5:
                oo['hmin'] = r.choice(q)
                if 'hmax' in oo and oo['hmin'] > oo['hmax']:
                    oo['hmin'], oo['hmax'] = oo['hmax'], oo['hmin']
        if self.p('oneff'):
            u = r.random()
            if u < 0.7:
                oo['esw'] = self.effvals([1, 2, 5, 0.5] + [-1] * self.p('subsidy'))
            if u > 0.4:
                oo['erun'] = self.effvals([0.5, 1, 2, 3] + [-1, 0] * self.p('subsidy'))
        if r.random() < 0.15:
            oo['force'] = True
        return oo

    def prev(self, lv):
        r = self.r
        u = r.random()
        if u < 0.3:
            return r.choice(lv)
        n = r.randint(2, 5) if u < 0.9 else r.randint(6, 8)
        # runs rather than white noise
        out = []
        on = r.random() < 0.5
        while len(out) < n:
            k = r.randint(1, 3)
            out += [r.choice([v for v in lv if v > 0]) if on else 0] * k
            on = not on
        return out[:n]

    def flow(self, label, bus, role='conv', **over):
        """role: conv, src, snk, stor"""
        r = self.r
        fl = dict(label=label, bus=bus, size=None, rmin=0, rmax=1, prof=None, eff=[], onoff=None, prev=None,
                  fhmin=None, fhmax=None, lfmin=None, lfmax=None)
        if self.p('inv'):
            fl['size'] = self.invest()
        elif not self.p('nosize'):
            fl['size'] = dict(kind='num', v=0 if self.p('nil') else r.choice(SIZES))
        if fl['size'] is not None:
            if self.p('rmin'):
                fl['rmin'] = self.ts([0, 0.1, 0.2, 0.25, 0.5])
            if r.random() < 0.5:
                fl['rmax'] = self.ts([0.5, 0.6, 0.8, 0.9, 1, 1])
            if role in ('src', 'snk') and self.p('prof'):
                fl['prof'] = [r.choice([0, 0.2, 0.3, 0.5, 0.75, 1]) for _ in range(self.T)]
                u = r.random()
                if u < 0.15:
                    fl['prof'] = r.choice([0.2, 0.5])
                elif u < 0.25:
                    fl['prof'] = [0] * self.T if u < 0.2 else 0
            if self.p('lf'):
                if r.random() < 0.6:
                    fl['lfmax'] = r.choice([0.25, 0.4, 0.5, 0.75])
                else:
                    fl['lfmin'] = r.choice([0.1, 0.2, 0.25, 0.4])
        if self.p('effp'):
            fl['eff'] = self.effvals([0.1, 0.5, 1, 2, -0.5, 0])
        if self.p('onoff') and fl['size'] is not None:
            fl['onoff'] = self.onoffpar()
        if self.p('hist'):
            fl['prev'] = self.prev([0, 2, 5])
        fl.update(over)
        return fl

    def system(self):
        r = self.r
        T = self.T = r.randint(*self.f['T'])
        if self.p('uneq'):
            dt = [r.choice(DTS) for _ in range(T)]
        else:
            dt = [r.choice([0.5, 1, 2])] * T
        nolast = T > 1 and r.random() < 0.3
        if nolast:
            dt[-1] = dt[-2]
        self.dt = dt
        self.neff = r.randint(*self.f['neff'])
        order = list(range(self.neff))
        r.shuffle(order)
        self.std = r.choice(order)
        self.obj = self.std if r.random() < 0.7 else r.choice(order)
        effs = []
        for e in range(self.neff):
            effs.append(dict(label='e%d' % e, so=[], si=[]))
        for a, b in itertools.combinations(order, 2):
            if self.p('share'):
                effs[a]['so'].append([b, self.ts([0.5, 0.1, 0.2, 1, 2])])
            if self.p('share'):
                effs[a]['si'].append([b, r.choice([0.5, 0.1, 0.2, 1, 2])])
        self.D = D = dict(T=T, dt=dt, prevdt=None, std=self.std, obj=self.obj, effs=effs, buses=[], comps=[], seed=r.randrange(10**6))
        if nolast:
            D['nolast'] = True  # the length of the last step is not stated
        if r.random() < 0.4:
            D['prevdt'] = r.choice([0.5, 1, 2])
            if r.random() < 0.3:
                D['prevdt'] = [r.choice([0.5, 1, 2]) for _ in range(9)]
        # buses
        self.bus('H')
        want = self.f['conv']
        n = r.randint(*self.f['nconv'])
        self.slack('H')
        for i in range(n):
            self.converter(i, r.choice(want))
        if r.random() < self.f['pw']:
            self.piecewise('pw')
        for i in range(self.f['nstor']):
            if self.p('stor'):
                self.storage('S%d' % i)
        if self.p('trans'):
            self.transmission('tr')
        if self.p('srcsink'):
            self.srcsink('SS')
        if self.p('excl'):
            self.exclusive('X')
        # demand / extra source
        if self.p('extra') or not D['comps']:
            if r.random() < 0.5:
                D['comps'].append(dict(cls='Sink', label='dem', flows=[self.flow('q', 0, 'snk')]))
            else:
                D['comps'].append(dict(cls='Source', label='pv', flows=[self.flow('q', 0, 'src')]))
        r.shuffle(D['comps'])
        return D

    def bus(self, label):
        for i, b in enumerate(self.D['buses']):
            if b['label'] == label:
                return i
        pen = None
        if self.p('pen'):
            pen = self.ts([1, 2, 5, 10, 0.5])
            if self.p('defpen'):
                pen = 'default'
        self.D['buses'].append(dict(label=label, pen=pen))
        return len(self.D['buses']) - 1

    def slack(self, blabel):
        """a bus without excess needs something which can take up or deliver any rate"""
        b = self.bus(blabel)
        r = self.r
        D = self.D
        if any(c.get('slackof') == b for c in D['comps']):
            return b
        pen = D['buses'][b]['pen'] is not None
        kinds = ['Source', 'Sink'] if not pen else r.choice([['Source'], ['Sink'], ['Source', 'Sink'], []])
        if not pen and r.random() < 0.5:
            kinds = [r.choice(['Source', 'Sink'])] if blabel == 'H' else ['Source' if blabel in ('G', 'A') else r.choice(['Source', 'Sink'])]
            if blabel == 'H':
                kinds = ['Source', 'Sink']
        for k in kinds:
            fl = self.flow('f', b, 'src' if k == 'Source' else 'snk')
            fl['size'] = pick(r, self.f['slackfree'], None, dict(kind='num', v=100))
            fl.update(rmin=0, rmax=1, prof=None, onoff=None, fhmin=None, fhmax=None, lfmin=None, lfmax=None)
            if self.p('effp'):
                fl['eff'] = self.effvals([0.1, 0.5, 1, 2, -0.1])
            D['comps'].append(dict(cls=k, label='%s_%s' % (k.lower(), blabel), flows=[fl], slackof=b))
        return b

    def converter(self, i, kind):
        r = self.r
        lab = 'K%d' % i
        H = 0
        T = self.T
        comp = dict(cls=kind, label=lab, par=[], onoff=None)
        if kind in ('Boiler', 'Power2Heat', 'HeatPump'):
            G = self.slack('G' if kind == 'Boiler' else 'E')
            comp['par'] = [self.ts(ETAS if kind != 'HeatPump' else COPS)]
            comp['flows'] = [self.flow('fin', G), self.flow('th', H)]
        elif kind == 'CoolingTower':
            G = self.slack('E')
            comp["par"] = [self.ts([0.1, 0.2, 0.5])]
            comp['flows'] = [self.flow('el', G), self.flow('th', H)]
        elif kind == 'CHP':
            G, E = self.slack('G'), self.slack('E')
            comp['par'] = [self.ts([0.5, 0.4, 0.25]), self.ts([0.2, 0.4, 0.25, 0.5])]
            comp['flows'] = [self.flow('fu', G), self.flow('th', H), self.flow('el', E)]
        elif kind == 'HPSource':
            E, A = self.slack('E'), self.slack('A')
            comp['par'] = [self.ts(COPS)]
            comp['flows'] = [self.flow('el', E), self.flow('ab', A), self.flow('th', H)]
        elif kind == 'Linear':
            G, E = self.slack('G'), self.slack('E')
            nin, nout = r.choice([(1, 1), (2, 1), (1, 2), (2, 2), (1, 2), (2, 2)])
            ins = [self.flow('i%d' % k, [G, E][k]) for k in range(nin)]
            outs = [self.flow('o%d' % k, [H, E][k]) for k in range(nout)]
            comp.update(nin=nin)
            n = nin + nout
            neq = r.randint(1, n - 1)
            eqs = []
            for q in range(neq):
                # each equation defines one further flow from the earlier ones
                new = n - neq + q
                use = [0] if q else list(range(n - neq))
                if r.random() < 0.4:    # any of the earlier flows, perhaps of the same side only
                    use = sorted(r.sample(range(new), r.randint(1, min(2, new))))
                eqs.append([[k, self.ts([0.5, 0.8, 1, 1.25, 2, 0]) if r.random() < 0.25 else self.ts([0.5, 0.8, 1, 1.25, 2])] for k in use] + [[new, self.ts([0.5, 1, 1, 2])]])
                if all((k < nin) == (new < nin) for k in use):
                    s = eqs[-1][r.choice([0, -1])] if len(use) == 1 else eqs[-1][-1]
                    s[1] = [-x for x in s[1]] if isinstance(s[1], list) else -s[1]
                if r.random() < 0.3:
                    r.shuffle(eqs[-1])
            comp['eqs'] = eqs
            comp['flows'] = ins + outs
        if self.p('compon'):
            comp['onoff'] = self.onoffpar(True)
        self._bound_if_on(comp)
        self.D['comps'].append(comp)

    def _bound_if_on(self, comp):
        """statuses need moderate sizes (the library relates them by the largest size)"""
        if comp.get('onoff') is not None or comp.get('force_on'):
            for fl in comp['flows']:
                if fl['size'] is None:
                    fl['size'] = dict(kind='num', v=self.r.choice([40, 50, 100]))

    def piecewise(self, lab):
        r = self.r
        G, H = self.slack('G'), 0
        three = r.random() < 0.4
        E = self.slack('E') if three else None
        flows = [self.flow('fu', G), self.flow('th', H)] + ([self.flow('el', E)] if three else [])
        for fl in flows:
            fl['size'] = dict(kind='num', v=r.choice([30, 40, 50]))
            fl.update(rmin=0, rmax=1)
            if fl['onoff'] and r.random() < 0.5:
                fl['onoff'] = None
        nseg = r.choice([1, 2, 2, 3, 3, 4])
        seg = []
        pos = [r.choice([0, 2, 5]) for _ in flows]
        varying = r.random() < 0.4
        for k in range(nseg):
            if r.random() < 0.4:  # gap
                pos = [p + r.choice([1, 2]) for p in pos]
            step = [r.choice([2, 4, 5]) for _ in flows]
            if r.random() < 0.2:  # point
                step = [0 for _ in flows]
            if r.random() < 0.15:  # constant in one flow
                step[r.randrange(len(step))] = 0
            end = [p + s for p, s in zip(pos, step)]
            if r.random() < 0.15 and pos[1] >= 2:  # decreasing output
                end[1] = pos[1] - 1
            row = []
            for a, b in zip(pos, end):
                if varying and r.random() < 0.6:
                    d = [r.choice([0, 1, 2]) for _ in range(self.T)]
                    row.append([[a + x for x in d], [b + x for x in d]])
                else:
                    row.append([a, b])
            seg.append(row)
            pos = end
        r.shuffle(seg)
        comp = dict(cls='Piecewise', label=lab, flows=flows, seg=seg, onoff=self.onoffpar(True) if r.random() < 0.5 else None)
        self.D['comps'].append(comp)

    def storage(self, lab):
        r = self.r
        T = self.T
        H = 0
        ch, dis = self.flow('in', H, 'stor'), self.flow('out', H, 'stor')
        for fl in (ch, dis):
            if isinstance(fl['size'], dict) and fl['size']['kind'] == 'inv' and r.random() < 0.5:
                fl['size'] = dict(kind='num', v=r.choice(SIZES))
            if fl['size'] is None:
                fl['size'] = dict(kind='num', v=r.choice([8, 10, 20]))
            fl['rmin'] = fl['rmin'] if r.random() < 0.2 else 0
        s = dict(cls='Storage', label=lab, flows=[ch, dis])
        if self.p('storinv'):
            s['cap'] = self.invest(flow=False)
        else:
            s['cap'] = r.choice([8, 10, 20, 30])
        s['excl'] = r.random() < 0.6
        s['rmin'] = self.ts([0, 0, 0.1, 0.2], T + 1) if r.random() < 0.5 else 0
        s['rmax'] = self.ts([0.5, 0.8, 1, 1], T + 1) if r.random() < 0.5 else 1
        if r.random() < 0.2:        # limits that cross each other between steps
            lo, hi = [r.choice([0, 0, 0.3, 0.6]) for _ in range(T + 1)], [r.choice([0.3, 0.5, 0.8, 1]) for _ in range(T + 1)]
            s['rmin'], s['rmax'] = [min(a, b) for a, b in zip(lo, hi)], [max(a, b) for a, b in zip(lo, hi)]
        s['etac'] = self.ts([1, 0.9, 0.8, 0.5])
        s['etad'] = self.ts([1, 0.8, 0.5, 0.4])
        s['loss'] = self.ts([0, 0, 0.02, 0.05, 0.1])
        u = r.random()
        s['init'] = 'cyc' if u < 0.3 else None if u < 0.5 else r.choice([0, 2, 4, 5, 1.5])
        s['fmin'] = r.choice([2, 3, 4, 5, 0]) if r.random() < 0.35 else None
        s['fmax'] = r.choice([5, 6, 8, 0, 0]) if r.random() < 0.35 and not (s['fmin'] or 0) > 5 else None
        if s['fmax'] == 0:
            s['fmin'] = r.choice([None, 0])
        self.D['comps'].append(s)

    def transmission(self, lab):
        r = self.r
        H, B = 0, self.slack('B')
        two = r.random() < 0.6
        in1 = self.flow('in1', H, 'stor')
        if in1['size'] is None:
            in1['size'] = dict(kind='num', v=r.choice(SIZES))
        flows = [in1, self.flow('out1', B)]
        if two:
            in2 = self.flow('in2', B)
            flows += [in2, self.flow('out2', H)]
        for fl in flows[1:]:
            if fl['size'] is not None and fl['size']['kind'] == 'inv' or fl['size'] is None:
                fl['size'] = dict(kind='num', v=r.choice([10, 12.5, 20, 40]))
            fl.update(rmin=0) if r.random() < 0.7 else None
        c = dict(cls='Transmission', label=lab, flows=flows, two=two, excl=r.random() < 0.6,
                 rel=pick(r, 0.7, self.ts([0.1, 0.2, 0.5, 0.05])), abs=pick(r, 0.5, self.ts([0.5, 0.2, 1, 0])), onoff=None)
        if self.p('compon'):
            c['onoff'] = self.onoffpar(True)
        self.D['comps'].append(c)

    def srcsink(self, lab):
        r = self.r
        a, b = self.flow('snk', 0, 'snk'), self.flow('src', r.choice([0, self.slack('E')]), 'src')
        for fl in (a, b):
            if fl['size'] is None:
                fl['size'] = dict(kind='num', v=r.choice(SIZES))
        self.D['comps'].append(dict(cls='SourceAndSink', label=lab, flows=[a, b], excl=r.random() < 0.7))

    def exclusive(self, lab):
        """a generic component with a group of mutually exclusive flows (a proper subset, or all)"""
        r = self.r
        n = r.choice([2, 3, 3, 4])
        bl = [0, self.slack('E'), self.slack('G'), 0]
        fl = [self.flow('x%d' % k, bl[k], r.choice(['src', 'snk'])) for k in range(n)]
        for q in fl:
            if q['size'] is None:
                q['size'] = dict(kind='num', v=r.choice(SIZES))
            q['prof'] = None
        nin = r.randint(0, n)
        grp = sorted(r.sample(range(n), r.randint(2, n)))
        comp = dict(cls='Component', label=lab, flows=fl, nin=nin, group=grp, onoff=self.onoffpar(True) if self.p('compon') else None)
        self.D['comps'].append(comp)


def _subset_sums(dt):
    s = {0}
    for d in dt:
        s |= {x + d for x in s}
    return sorted(s)[1:]
