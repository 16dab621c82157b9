"""desc -> case of spec/EnergySystem.tla (integers only)."""

NONE = -2000000000
PENSCALE_DEFAULT = 100000


def q(x):
    return NONE if x is None else int(round(x * 10000))


def c(x):
    return int(round(x * 1000))


def mnt(h):
    return NONE if h is None else int(round(h * 60))


def lst(v, n):
    return list(v) if isinstance(v, (list, tuple)) else [v] * n


def effl(ev, T, conv):
    return [dict(e=0 if e is None else e + 1, v=[conv(x) for x in lst(v, T)]) for e, v in (ev or [])]


def flow_list(D):
    """(component index, flow index in component, flow) in the numbering of the case"""
    return [(ci, fi, fl) for ci, comp in enumerate(D['comps']) for fi, fl in enumerate(comp['flows'])]


def is_input(comp, fi):
    k = comp['cls']
    if k == 'Sink':
        return True
    if k == 'Source':
        return False
    if k in ('Linear', 'Component'):
        return fi < comp['nin']
    if k in ('CHP', 'Boiler', 'Power2Heat', 'HeatPump', 'Piecewise', 'Storage', 'SourceAndSink'):
        return fi == 0
    if k == 'CoolingTower':
        return True
    if k == 'HPSource':
        return fi < 2
    if k == 'Transmission':
        return fi in (0, 2)
    raise ValueError(k)


def to_case(D):
    T = D['T']
    cs = dict(T=T, dt=[mnt(d) for d in D['dt']], std=D['std'] + 1, obj=D['obj'] + 1)
    cs['t0'] = mnt(D.get('t0', 0))
    pd = D['prevdt']
    cs['prevdt'] = [mnt(x) for x in pd] if isinstance(pd, list) else [mnt(D['dt'][0] if pd is None else pd)]
    penscale = PENSCALE_DEFAULT if any(b['pen'] == 'default' for b in D['buses']) else 1
    cs['penscale'] = penscale
    cs['buses'] = []
    for b in D['buses']:
        p = b['pen']
        if p is None:
            cs['buses'].append(dict(pen=[]))
        else:
            p = 1e5 if p == 'default' else p
            cs['buses'].append(dict(pen=[c(x / penscale) for x in lst(p, T)]))
    cs['flows'], cs['rels'], cs['pws'], cs['excl'], cs['stors'], cs['onoffs'], cs['invs'], cs['eqsz'] = [], [], [], [], [], [], [], []

    def inv(iv):
        d = dict(fixed=q(iv['fixed']), min=q(iv['min'] or 0), max=q(iv['max']) if iv['max'] is not None else (NONE if iv['fixed'] is not None else 2000000000),
                 opt=int(bool(iv['opt'])))
        for k in ('fix', 'div', 'spec'):
            d[k] = [dict(e=0 if e is None else e + 1, v=q(v)) for e, v in iv[k]]
        if iv['seg']:
            d['segx'] = [[q(a), q(b)] for a, b in iv['seg'][0]]
            d['segy'] = [dict(e=0 if e is None else e + 1, y=[[q(a), q(b)] for a, b in ys]) for e, ys in iv['seg'][1]]
        else:
            d['segx'], d['segy'] = [], []
        cs['invs'].append(d)
        return len(cs['invs'])

    def onoff(oo, fl):
        d = dict(fl=fl)
        for k in ('runmin', 'runmax', 'offmin', 'offmax'):
            d[k] = [mnt(x) for x in lst(oo[k], T)] if oo.get(k) is not None else []
        d['swmax'] = oo['swmax'] if oo.get('swmax') is not None else NONE
        d['hmin'], d['hmax'] = mnt(oo.get('hmin')), mnt(oo.get('hmax'))
        d['esw'] = effl(oo.get('esw'), T, q)
        d['erun'] = effl(oo.get('erun'), T, q)
        cs['onoffs'].append(d)
        return len(cs['onoffs'])

    nf = 0
    for comp in D['comps']:
        k = comp['cls']
        idx = [nf + 1 + i for i in range(len(comp['flows']))]
        nf += len(comp['flows'])
        forced = set()
        if comp.get('onoff') is not None:
            forced |= set(idx)
        if k in ('Storage', 'SourceAndSink') and comp['excl']:
            forced |= set(idx)
            cs['excl'].append(idx)
        if k == 'Component':
            g = [idx[i] for i in comp['group']]
            forced |= set(g)
            cs['excl'].append(g)
        if k == 'Transmission':
            if comp['two'] and comp['excl']:
                cs['excl'].append([idx[0], idx[2]])
                forced |= {idx[0], idx[2]}
            if comp.get('lossy') or comp['abs'] is not None and any(x != 0 for x in lst(comp['abs'], T)):
                forced |= set(idx)
        for i, fl in zip(idx, comp['flows']):
            d = dict(sgn=-1 if is_input(comp, i - idx[0]) else 1, bus=fl['bus'] + 1, comp=1)
            s = fl['size']
            d['inv'] = 0
            d['size'] = NONE
            if s is not None and s['kind'] == 'num':
                d['size'] = q(s['v'])
            elif s is not None:
                d['inv'] = inv(s)
            d['rmin'] = [c(x) for x in lst(fl['rmin'], T)]
            d['rmax'] = [c(x) for x in lst(fl['rmax'], T)]
            d['prof'] = [c(x) for x in lst(fl['prof'], T)] if fl['prof'] is not None else []
            d['eff'] = effl(fl['eff'], T, c)
            d['onoff'] = int(fl['onoff'] is not None or i in forced)
            pv = fl['prev']
            d['prev'] = [] if pv is None else [q(x) for x in lst(pv, 1)]
            d['fhmin'], d['fhmax'] = q(fl['fhmin']), q(fl['fhmax'])
            d['lfmin'], d['lfmax'] = (NONE if fl[n] is None else c(fl[n]) for n in ('lfmin', 'lfmax'))
            cs['flows'].append(d)
            if fl['onoff'] is not None:
                onoff(fl['onoff'], [i])
        oo = 0
        if comp.get('onoff') is not None:
            oo = onoff(comp['onoff'], idx)
        if k in ('Boiler', 'Power2Heat', 'HeatPump', 'CoolingTower', 'HPSource', 'CHP'):
            par = [[c(x) for x in lst(p, T)] for p in comp['par']]
            cs['rels'].append(dict(kind=k, fl=idx, par=par, eqs=[]))
        elif k == 'Linear':
            cs['rels'].append(dict(kind=k, fl=idx, par=[], eqs=[
                [dict(f=idx[fi], io=1 if fi < comp['nin'] else -1, c=[c(x) for x in lst(v, T)]) for fi, v in eq] for eq in comp['eqs']]))
        elif k == 'Piecewise':
            cs['pws'].append(dict(fl=idx, oo=oo, seg=[
                [dict(a=[q(x) for x in lst(a, T)], b=[q(x) for x in lst(b, T)]) for a, b in row] for row in comp['seg']]))
        elif k == 'Transmission':
            rel = [c(x) for x in lst(comp['rel'] if comp['rel'] is not None else 0, T)]
            ab = [c(x) for x in lst(comp['abs'] if comp['abs'] is not None else 0, T)]
            cs['rels'].append(dict(kind=k, fl=idx[:2], par=[rel, ab], eqs=[]))
            if comp['two']:
                cs['rels'].append(dict(kind=k, fl=idx[2:], par=[rel, ab], eqs=[]))
                s1, s2 = comp['flows'][0]['size'], comp['flows'][2]['size']
                if s1['kind'] == 'inv':
                    i1 = cs['flows'][idx[0] - 1]['inv']
                    if not (s2 and s2['kind'] == 'inv'):
                        # "the size of in2 is equal to in1, with no extra effects"
                        f2 = cs['flows'][idx[2] - 1]
                        f2['size'], f2['inv'] = NONE, i1
                    else:
                        cs['eqsz'].append([i1, cs['flows'][idx[2] - 1]['inv']])
        elif k == 'Storage':
            d = dict(ch=idx[0], dis=idx[1], cap=NONE, inv=0)
            if isinstance(comp['cap'], dict):
                d['inv'] = inv(comp['cap'])
            else:
                d['cap'] = q(comp['cap'])
            d['rmin'] = [c(x) for x in lst(comp['rmin'], T + 1)]
            d['rmax'] = [c(x) for x in lst(comp['rmax'], T + 1)]
            d['cyc'] = int(comp['init'] == 'cyc')
            d['init'] = NONE if comp['init'] in ('cyc', None) else q(comp['init'])
            d['fmin'], d['fmax'] = q(comp['fmin']), q(comp['fmax'])
            d['etac'], d['etad'], d['loss'] = ([c(x) for x in lst(comp[n], T)] for n in ('etac', 'etad', 'loss'))
            cs['stors'].append(d)
    cs['effs'] = []
    for e in D['effs']:
        d = dict(so=[dict(e=t + 1, f=[c(x) for x in lst(v, T)]) for t, v in e['so']],
                 si=[dict(e=t + 1, f=c(v)) for t, v in e['si']])
        for n in ('minop', 'maxop', 'mininv', 'maxinv', 'mintot', 'maxtot'):
            d[n] = q(e.get(n))
        for n in ('minph', 'maxph'):
            d[n] = [q(x) for x in lst(e[n], T)] if e.get(n) is not None else []
        cs['effs'].append(d)
    return cs
