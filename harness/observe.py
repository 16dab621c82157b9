"""Results reported by flixOpt -> trace of spec/Trace.tla."""
import numpy as np

from tocase import NONE


def q(x):
    x = float(x)
    if not np.isfinite(x):
        raise ValueError('not a finite number in the results: %r' % x)
    return int(round(x * 10000))


class Missing(Exception):
    """the results lack something every calculation reports"""


def observe(D, cs, res, T=None):
    """res: results dictionary (as returned, or as loaded from the saved file)"""
    T = T or cs['T']

    def get(path, must=True):
        x = res
        for k in path:
            if not isinstance(x, dict) or k not in x:
                if must:
                    raise Missing('/'.join(path))
                return None
            x = x[k]
        return x

    def arr(path, n, must=True):
        v = get(path, must)
        if v is None:
            return None
        v = np.atleast_1d(np.asarray(v, dtype=float))
        if len(v) != n:
            raise Missing('%s has %d values instead of %d' % ('/'.join(path), len(v), n))
        return v

    def one(path, must=True):
        v = get(path, must)
        return None if v is None else float(np.asarray(v).reshape(-1)[0])

    fl, items, sizes, itf, stors = [], [], [], [], []
    time = np.asarray(get(('Time',)), dtype='datetime64[us]')
    tm = (time - np.datetime64('2021-03-01T00:00')) / np.timedelta64(1, 'm')
    steps = np.asarray(get(('Time intervals in hours',)), dtype=float) * 60
    for comp in D['comps']:
        cp = ('Components', comp['label'])
        for f in comp['flows']:
            p = cp + (f['label'],)
            fl.append(p)
            if isinstance(f['size'], dict) and f['size']['kind'] == 'inv':
                sizes.append(p)
            if f['onoff'] is not None:
                items.append(p)
        if comp.get('onoff') is not None:
            items.append(cp)
        nfl = len(fl)
        for f in range(len(fl) - len(comp['flows']), nfl):
            if comp['flows'][f - nfl + len(comp['flows'])]['onoff'] is not None:
                itf.append([f])
        if comp.get('onoff') is not None:
            itf.append(list(range(nfl - len(comp['flows']), nfl)))
        if comp['cls'] == 'Storage':
            stors.append(cp)
            if isinstance(comp['cap'], dict):
                sizes.append(cp)
    tr = dict(tm=[int(round(x)) for x in tm], dtm=[int(round(x)) for x in steps])
    tr['sz'] = [q(one(p + ('Investment', 'size'))) for p in sizes]
    tr['inv'] = [NONE if (v := one(p + ('Investment', 'isInvested'), False)) is None else int(round(v)) for p in sizes]
    # the smallest size counting as an investment is far below the resolution of the trace
    tr['sz'] = [x if v == NONE or abs(x) >= 5 else (max(x, 1) if v else 0) for x, v in zip(tr['sz'], tr['inv'])]
    rates = [arr(p + ('flow_rate',), T) for p in fl]
    ons = [arr(p + ('OnOff', 'on'), T, False) for p in fl]
    tr['x'] = [[q(r[t]) for r in rates] for t in range(T)]
    tr['zero'] = [[int(abs(r[t]) < 5e-6) for r in rates] for t in range(T)]
    tr['onf'] = [[int(round(o[t])) if o is not None else int(abs(r[t]) > 1e-4) for r, o in zip(rates, ons)] for t in range(T)]
    con = [arr(p + ('OnOff', 'on'), T) for p in items]
    tr['onc'] = [[int(round(o[t])) for o in con] for t in range(T)]
    tot = [sum(np.abs(rates[f]) for f in g) for g in itf]
    tr['itz'] = [[2 if v[t] < 3e-6 else 1 if v[t] < 2e-3 else 0 for v in tot] for t in range(T)]     # zero / about zero / flowing
    for key, name, conv in (('run', 'consecutiveOnHours', lambda v: int(round(v * 60))), ('idle', 'consecutiveOffHours', lambda v: int(round(v * 60))),
                            ('son', 'switchOn', lambda v: int(round(v))), ('soff', 'switchOff', lambda v: int(round(v)))):
        vs = [arr(p + ('OnOff', name), T, False) for p in items]
        tr[key] = [[NONE if v is None else conv(v[t]) for v in vs] for t in range(T)]
    tr['onm'] = [int(round(one(p + ('OnOff', 'totalOnHours')) * 60)) for p in items]
    tr['nst'] = [NONE if (v := one(p + ('OnOff', 'nrSwitchOn'), False)) is None else int(round(v)) for p in items]
    cst = [arr(p + ('charge_state',), T + 1) for p in stors]
    nds = [arr(p + ('netto_discharge',), T) for p in stors]
    tr['c0'] = [q(v[0]) for v in cst]
    tr['c'] = [[q(v[t + 1]) for v in cst] for t in range(T)]
    tr['nd'] = [[q(v[t]) for v in nds] for t in range(T)]
    used = {f['bus'] for c in D['comps'] for f in c['flows']}
    ex = {}
    for key, name in (('ei', 'excess_input'), ('eo', 'excess_output')):
        vs = [arr(('Buses', b['label'], name), T) if (b['pen'] is not None and i in used) else None for i, b in enumerate(D['buses'])]
        tr[key] = [[0 if v is None else q(v[t]) for v in vs] for t in range(T)]
    effs = [('Effects', e['label']) for e in D['effs']]
    opt = [arr(p + ('operation', 'operation_sum_TS'), T) for p in effs]
    tr['opt'] = [[q(v[t]) for v in opt] for t in range(T)]
    tr['op'] = [q(one(p + ('operation', 'operation_sum'))) for p in effs]
    tr['iv'] = [q(one(p + ('invest', 'invest_sum'))) for p in effs]
    tr['tot'] = [q(one(p + ('all', 'all_sum'))) for p in effs]
    pen = one(('Effects', 'penalty', 'penalty_sum'))
    tr['pen'] = q(pen / cs['penscale'])
    tr['obj'] = q(one(('Objective',)) - pen)      # without the (differently scaled) penalty
    tr['fh'] = [q(one(p + ('sumFlowHours',))) for p in fl]
    return tr


def tractable(tr):
    """all numbers small enough for the 32-bit arithmetic of the specification"""
    big = 0
    stack = [tr[k] for k in ('x', 'sz', 'c0', 'c', 'ei', 'eo', 'opt', 'op', 'iv', 'tot', 'obj', 'pen', 'fh')]
    while stack:
        v = stack.pop()
        if isinstance(v, list):
            stack.extend(v)
        elif v != NONE:
            big = max(big, abs(v))
    return big < 200000000
