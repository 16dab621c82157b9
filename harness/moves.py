"""Candidate sizes, initial contents and step vectors for the exploration of a case.

Heuristics only: they aim at legal vectors, at the edges of the limits, and just beyond them.
The specification decides which of them are legal.
"""
from tocase import NONE, flow_list, lst

EPS = 500       # 0.05: clearly beyond a limit (HI is 0.02)


def candidates(cs, rng, nsz=3, nc0=2):
    """szs, c0s"""
    ninv = len(cs['invs'])
    if ninv == 0:
        szs = [[]]
    else:
        def good(iv):
            if iv['fixed'] != NONE:
                v = [iv['fixed']]
            else:
                mx = min(iv['max'], 200000)
                v = [iv['min'], mx, (iv['min'] + mx) // 2 // 1000 * 1000]
                for a, b in iv['segx']:
                    v += [a, b] + [(a + b) // 2 // 1000 * 1000, a + (b - a) // 4 // 1000 * 1000] * 2
                if iv['segx']:
                    v = [x for x in v if any(a <= x <= b for a, b in iv['segx'])] or v
                v = [x for x in v if x > 0] or [mx]
            if iv['opt']:
                v.append(0)
            return v

        def badv(iv):
            v = [(iv['fixed'] if iv['fixed'] != NONE else min(iv['max'], 200000)) + EPS]
            m = iv['fixed'] if iv['fixed'] != NONE else iv['min']
            if m > EPS:
                v.append(m - EPS)
            if not iv['opt'] and m > 0:
                v.append(0)
            for a, b in iv['segx']:
                v += [max(a - EPS, 0), b + EPS]
            return v
        szs = []
        for k in range(nsz):
            s = [rng.choice(good(iv)) for iv in cs['invs']]
            for a, b in cs['eqsz']:
                s[b - 1] = s[a - 1]
            if k == nsz - 1 and nsz > 1 and rng.random() < 0.7:
                i = rng.randrange(ninv)
                s[i] = rng.choice(badv(cs['invs'][i]))
            if s not in szs:
                szs.append(s)
    c0s = []
    if not cs['stors']:
        c0s = [[]]
    else:
        for k in range(nc0):
            v = []
            for s in cs['stors']:
                cap = s['cap'] if s['inv'] == 0 else max(z[s['inv'] - 1] for z in szs)
                if s['init'] != NONE:
                    x = s['init']
                    if k == nc0 - 1 and k > 0 and rng.random() < 0.5:
                        x += rng.choice([EPS, -EPS, 10000])
                        x = max(0, x)
                else:
                    x = rng.choice([cap * s['rmin'][0] // 1000, cap * s['rmax'][0] // 1000, cap // 2, cap // 4, 20000])
                    if rng.random() < 0.15:
                        x += EPS
                v.append(x)
            if v not in c0s:
                c0s.append(v)
    return szs, c0s


def moves(D, cs, szs, rng, K=6, pbad=0.35):
    """list over t of candidate vectors (ints)"""
    T = cs['T']
    fl = cs['flows']
    nF = len(fl)
    D_flows = flow_list(D)
    res = []
    free_bus = {}     # bus -> slack flow index
    first = {}
    n = 0
    for comp in D['comps']:
        first[comp['label']] = n
        n += len(comp['flows'])
    slacks = {}
    for comp in D['comps']:
        if comp.get('slackof') is not None:
            slacks.setdefault(comp['slackof'], []).append(first[comp['label']])

    def size(i, sz):
        f = fl[i]
        return sz[f['inv'] - 1] if f['inv'] else f['size']

    def levels(i, t, sz):
        f = fl[i]
        s = size(i, sz)
        if s == NONE:
            return [0, 10000, 25000, 40000, 100000], [-EPS]
        lo, hi = s * f['rmin'][t] // 1000, s * f['rmax'][t] // 1000
        if f['prof']:
            lo = hi = s * f['prof'][t] // 1000
        good = [lo, hi]
        if hi > lo:
            mid = (lo + hi) // 2 // 1000 * 1000
            good += [mid]
            good += [x for x in (10000, 20000, 40000, 50000) if lo < x < hi]
        bad = [hi + EPS] + ([lo - EPS] if lo > EPS else [])
        if f['onoff']:
            good += [0]
            if lo == 0:
                good += [0]
        elif lo > 0:
            bad.append(0)
        return good, bad

    def local(comp, t, sz, bad):
        """one tuple of rates for the flows of comp"""
        b = first[comp['label']]
        k = comp['cls']
        nfl = len(comp['flows'])

        def lv(j, isbad=False):
            g, bd = levels(b + j, t, sz)
            return rng.choice(bd if isbad and bd else g)
        par = [lst(p, T)[t] for p in comp.get('par', [])]
        if k in ('Boiler', 'Power2Heat', 'HeatPump'):
            if rng.random() < 0.7:
                th = lv(1, bad)
                v = [th / par[0], th]
            else:
                x = lv(0, bad)
                v = [x, x * par[0]]
        elif k == 'CoolingTower':
            th = lv(1, bad)
            v = [th * par[0], th]
        elif k == 'CHP':
            if rng.random() < 0.5:
                x = lv(0, bad)
                v = [x, x * par[0], x * par[1]]
            else:
                th = lv(1, bad)
                x = th / par[0]
                v = [x, th, x * par[1]]
        elif k == 'HPSource':
            if rng.random() < 0.5:
                th = lv(2, bad)
                p = th / par[0]
            else:
                p = lv(0, bad)
                th = p * par[0]
            v = [p, th - p, th]
        elif k == 'Linear':
            v = [None] * nfl
            neq = len(comp['eqs'])
            for j in range(nfl - neq):
                v[j] = lv(j, bad and j == 0)
            for eq in comp['eqs']:
                acc = 0
                eq = sorted(eq, key=lambda x: x[0])
                for j, cf in eq[:-1]:
                    acc += v[j] * lst(cf, T)[t] * (1 if j < comp['nin'] else -1)
                j, cf = eq[-1]
                v[j] = -acc / lst(cf, T)[t] / (1 if j < comp['nin'] else -1)
        elif k == 'Piecewise':
            if comp['onoff'] is not None and rng.random() < 0.25:
                v = [0] * nfl
            else:
                row = rng.choice(comp['seg'])
                lam = rng.choice([0, 1, 0.5, 0.25, 0.75])
                if bad and rng.random() < 0.5:
                    lam = rng.choice([-0.25, 1.25])
                v = []
                for a, bb in row:
                    a, bb = lst(a, T)[t] * 10000, lst(bb, T)[t] * 10000
                    v.append(a + lam * (bb - a))
                if bad and rng.random() < 0.5:
                    # mix of two segments / positions
                    row = rng.choice(comp['seg'])
                    lam = rng.choice([0, 1, 0.5])
                    j = rng.randrange(nfl)
                    a, bb = (lst(x, T)[t] * 10000 for x in row[j])
                    v[j] = a + lam * (bb - a)
        elif k == 'Transmission':
            rel, ab = lst(comp['rel'] or 0, T)[t], lst(comp['abs'] or 0, T)[t]
            v = [0] * nfl
            dirs = rng.choice([[0], [2], [0, 2], []]) if comp['two'] else rng.choice([[0], [0], [0], []])
            if comp['two'] and comp['excl'] and len(dirs) == 2 and not bad:
                dirs = dirs[:1]
            for d in dirs:
                x = lv(d, bad)
                v[d] = x
                v[d + 1] = x * (1 - rel) - (ab * 10000 if x > 100 else 0)
        elif k == 'Storage':
            u = rng.random()
            v = [0, 0]
            if u < 0.45:
                v[0] = lv(0, bad)
            elif u < 0.8:
                v[1] = lv(1, bad)
            elif u < 0.9 and (bad or not comp['excl']):
                v = [lv(0), lv(1)]
            elif not fl[b]['onoff']:
                v = [lv(0), lv(1)]
        elif k == 'SourceAndSink':
            v = [lv(0, bad), lv(1)]
            if comp['excl'] and not bad:
                v[rng.randrange(2)] = 0
        elif k == 'Component':
            v = [lv(j) for j in range(nfl)]
            if not bad:
                keep = rng.choice(comp['group'] + [None])
                for j in comp['group']:
                    if j != keep:
                        v[j] = 0
            elif rng.random() < 0.5:
                v[rng.randrange(nfl)] = lv(rng.randrange(nfl), True)
        else:
            v = [lv(j, bad) for j in range(nfl)]
        if comp.get('onoff') is not None and rng.random() < 0.3:
            v = [0] * nfl
        return v

    for t in range(T):
        out = []
        seen = set()

        def vec(kind):
            sz = rng.choice(szs)
            v = [None] * nF
            badc = rng.choice(D['comps'])['label'] if kind == 'bad' else None
            for comp in D['comps']:
                b = first[comp['label']]
                if comp.get('slackof') is not None:
                    continue
                loc = local(comp, t, sz, comp['label'] == badc)
                if len(loc) == len(comp['flows']):
                    for j, x in enumerate(loc):
                        v[b + j] = int(round(x))
            for bus, sl in slacks.items():
                for i in sl:
                    v[i] = 0
            for bus, sl in slacks.items():
                net = sum(fl[i]['sgn'] * (v[i] or 0) for i in range(nF) if fl[i]['bus'] == bus + 1)
                src = [i for i in sl if fl[i]['sgn'] == 1]
                snk = [i for i in sl if fl[i]['sgn'] == -1]
                pen = cs['buses'][bus]['pen'] != []
                if pen and rng.random() < 0.4:
                    # leave an excess (of either sign)
                    for i in sl:
                        v[i] = rng.choice([0, 10000, 20000, 50000]) if rng.random() < 0.5 else 0
                    continue
                if src and snk and rng.random() < 0.3:
                    extra = rng.choice([10000, 25000])
                else:
                    extra = 0
                if src:
                    v[src[0]] = max(0, -net) + (extra if snk else 0)
                if snk:
                    v[snk[0]] = max(0, net) + (extra if src else 0)
            if any(x is None for x in v):
                return None
            if kind == 'mut':
                i = rng.randrange(nF)
                v[i] += rng.choice([EPS, -EPS, 10000, -10000])
                if v[i] < 0 and rng.random() < 0.8:
                    v[i] = -v[i]
                # keep the balances of buses with slack intact, so that only the mutated part is wrong
                bus = fl[i]['bus'] - 1
                sl = slacks.get(bus, [])
                if i not in sl and rng.random() < 0.75:
                    d = sum(f['sgn'] * v[j] for j, f in enumerate(fl) if f['bus'] == bus + 1)
                    for j in sl:
                        if fl[j]['sgn'] == -1 and d > 0 or fl[j]['sgn'] == 1 and d < 0:
                            v[j] += abs(d)
                            d = 0
            # unclear rates (neither zero nor clearly on)
            if any(0 < abs(x) < 300 for x in v):
                return None
            return v
        tries = 0
        kinds = ['ok'] * max(1, int(round(K * (1 - pbad))))
        kinds += [rng.choice(['bad', 'mut']) for _ in range(K - len(kinds))]
        for kd in kinds:
            for _ in range(12):
                v = vec(kd)
                if v is not None and max(abs(x) for x in v) < 1500000 and tuple(v) not in seen:
                    seen.add(tuple(v))
                    out.append(v)
                    break
        if not out:
            out.append([0] * nF)
        res.append(out)
    return res
