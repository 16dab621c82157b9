"""Calculating only a selection of the time steps of a system: what the system restricted to them is."""
import copy

_FLOW = ('rmin', 'rmax', 'prof')
_ONOFF = ('runmin', 'runmax', 'offmin', 'offmax')


def cut(D, idx):
    """the system D restricted to the time steps idx (increasing), remembering where it comes from"""
    idx = list(idx)
    full = D
    D = copy.deepcopy(D)
    T = full['T']
    end = [sum(full['dt'][:i + 1]) for i in range(T)]
    beg = [0] + end[:-1]
    D['T'] = len(idx)
    # a step lasts until the next selected time stamp, the last one until its own end
    D['dt'] = [(beg[idx[k + 1]] if k + 1 < len(idx) else end[i]) - beg[i] for k, i in enumerate(idx)]
    if D['prevdt'] is None:
        D['prevdt'] = full['dt'][0]
    D['t0'] = beg[idx[0]]

    def s(v, extra=False):
        if not isinstance(v, (list, tuple)):
            return v
        return [v[i] for i in idx] + ([v[idx[-1] + 1]] if extra else [])

    def eff(ev):
        return [[e, s(v)] for e, v in ev] if ev else ev

    def oo(o):
        if o:
            for k in _ONOFF:
                if o.get(k) is not None:
                    o[k] = s(o[k])
            for k in ('esw', 'erun'):
                if o.get(k):
                    o[k] = eff(o[k])
    for b in D['buses']:
        if isinstance(b['pen'], list):
            b['pen'] = s(b['pen'])
    for e in D['effs']:
        e['so'] = [[t, s(v)] for t, v in e['so']]
        for k in ('minph', 'maxph'):
            if e.get(k) is not None:
                e[k] = s(e[k])
    for c in D['comps']:
        oo(c.get('onoff'))
        for fl in c['flows']:
            for k in _FLOW:
                fl[k] = s(fl[k])
            fl['eff'] = eff(fl['eff'])
            oo(fl['onoff'])
        if c.get('par'):
            c['par'] = [s(p) for p in c['par']]
        if c.get('eqs'):
            c['eqs'] = [[[fi, s(v)] for fi, v in eq] for eq in c['eqs']]
        if c.get('seg'):
            c['seg'] = [[[s(a), s(b)] for a, b in row] for row in c['seg']]
        if c['cls'] == 'Transmission':
            if c['abs'] is not None and any(x != 0 for x in (c['abs'] if isinstance(c['abs'], list) else [c['abs']])):
                c['lossy'] = True
            c['rel'], c['abs'] = s(c['rel']), s(c['abs'])
        if c['cls'] == 'Storage':
            for k in ('rmin', 'rmax'):
                c[k] = s(c[k], True)
            for k in ('etac', 'etad', 'loss'):
                c[k] = s(c[k])
    D['window'] = dict(full=full, idx=idx)
    return D


def origin(D):
    """(description to build, time_indices of the calculation)"""
    w = D.get('window')
    if not w:
        return D, None
    i = w['idx']
    return w['full'], (range(i[0], i[-1] + 1) if i == list(range(i[0], i[-1] + 1)) else i)


def choose(D, rng, lo=2, hi=4):
    """a random selection of 2..4 steps: mostly consecutive"""
    T = D['T']
    n = rng.randint(lo, min(hi, T))
    if rng.random() < 0.8:
        a = rng.randint(0, T - n)
        return list(range(a, a + n))
    return sorted(rng.sample(range(T), n))
