"""Which systems are generated for which property.

For every property: feature settings of gen.Gen (several "families"), and the set of clause
prefixes / compared quantities whose discrepancies count as a violation of that property.
"""

# switches everything off which is not the subject
OFF = dict(pen=0.3, share=0.0, onoff=0.0, compon=0.0, hist=0.0, runlim=0.0, starts=0.0, oneff=0.0, onhours=0.0, inv=0.0, invopt=0.5, invseg=0.0,
           lf=0.0, prof=0.0, rmin=0.2, nconv=(0, 0), pw=0.0, stor=0.0, storinv=0.0, trans=0.0, srcsink=0.0, excl=0.0, extra=0.5, effp=0.2,
           neff=(1, 2), nosize=0.2, slackfree=0.6)


def F(**kw):
    d = dict(OFF)
    d.update(kw)
    return d


ALL = dict(T=(2, 4), trans=0.2, pw=0.2, excl=0.15)
CONV = ['Boiler', 'Power2Heat', 'HeatPump', 'CHP', 'CoolingTower', 'HPSource', 'Linear']

EXPLORE = {
    'C01': [F(pen=0.8, nconv=(0, 2), tsp=0.7, uneq=0.8, stor=0.2, extra=0.8),
            F(pen=0.7, defpen=1.0, nconv=(0, 1), uneq=0.8),
            F(pen=0.9, nconv=(1, 2), trans=0.3, srcsink=0.3, onoff=0.3, effp=0.6)],
    'C02': [F(prof=0.4, rmin=0.8, tsp=0.7, uneq=0.8, nosize=0.1, extra=1, nconv=(0, 1)),
            F(prof=0.3, rmin=0.8, lf=0.6, onoff=0.5, hist=0.3, tsp=0.6, extra=1, nconv=(0, 1)),
            dict(F(rmin=0.5, onoff=0.2, inv=0.3, extra=1, nconv=(0, 1), stor=0.2), tight='fh'),
            F(lf=0.8, inv=0.5, rmin=0.5, extra=1, nconv=(0, 1))],
    'C03': [F(nconv=(1, 2), tsp=0.8, conv=[k], extra=0.3, onoff=0.2, inv=0.1) for k in CONV] +
           [F(nconv=(1, 2), tsp=0.7, conv=['Linear'], onoff=0.3, compon=0.2)],
    'C04': [F(pw=1, tsp=0.5, extra=0.3), F(pw=1, onoff=0.5, compon=0.4, hist=0.5, starts=0.5, oneff=0.5, extra=0.3)],
    'C05': [F(stor=1, nstor=1, tsp=0.7, uneq=0.9, extra=0.5), dict(F(T=(5, 7), stor=1, nstor=1, tsp=0.7, uneq=0.9, extra=0.5), K=2), F(stor=1, nstor=2, tsp=0.7, uneq=0.9, extra=0.5, onoff=0.2, storinv=0.2)],
    'C06': [F(stor=1, nstor=1, tsp=0.6, extra=0.5), dict(F(T=(5, 7), stor=1, nstor=1, tsp=0.5, extra=0.5), K=2), F(stor=1, nstor=2, storinv=0.5, tsp=0.5, extra=0.5, invseg=0.2)],
    'C07': [F(onoff=0.7, onhours=0.7, hist=0.5, extra=1, nconv=(0, 1), rmin=0.6, tsp=0.6),
            F(compon=0.9, onoff=0.3, onhours=0.7, hist=0.5, extra=1, nconv=(1, 2), rmin=0.5),
            F(onoff=0.7, inv=0.5, onhours=0.4, hist=0.4, extra=1, nconv=(0, 1), rmin=0.6, oneff=0.4)],
    'C08': [F(T=(3, 4), onoff=0.8, hist=0.8, runlim=1, extra=1, nconv=(0, 1), tsp=0.4),
            F(T=(3, 4), compon=1.0, onoff=0.2, hist=0.9, runlim=1, extra=0.5, nconv=(1, 1), tsp=0.4),
            F(T=(4, 4), onoff=0.7, hist=0.8, runlim=1, starts=0.5, oneff=0.3, extra=1, nconv=(0, 0)),
            dict(F(T=(6, 8), onoff=0.7, hist=0.6, runlim=1, rmin=0.9, extra=1, nconv=(0, 0), tsp=0.3), K=2)],
    'C09': [F(onoff=0.8, hist=0.8, starts=0.8, oneff=0.8, extra=1, nconv=(0, 1), neff=(1, 3), tsp=0.6),
            F(compon=0.9, onoff=0.2, hist=0.8, starts=0.7, oneff=0.9, extra=0.5, nconv=(1, 1), neff=(1, 3), tsp=0.6, uneq=0.9),
            dict(F(T=(6, 8), onoff=0.7, hist=0.6, starts=0.8, oneff=0.8, rmin=0.9, extra=1, nconv=(0, 0)), K=2)],
    'C10': [F(inv=0.9, rmin=0.6, tsp=0.5, extra=1, nconv=(0, 1)),
            F(inv=0.5, stor=1, storinv=0.9, invseg=0.2, extra=0.6),
            F(inv=0.9, prof=0.8, extra=1, rmin=0.3, nconv=(0, 0), pen=0.8),
            F(inv=0.9, onoff=0.7, rmin=0.7, hist=0.4, extra=1, nconv=(0, 1))],
    'C11': [F(inv=0.9, invseg=0.0, extra=1, neff=(2, 3), nconv=(0, 1), share=0.3),
            F(inv=0.9, invseg=1.0, extra=1, neff=(2, 3), nconv=(0, 1), share=0.3),
            F(inv=0.4, stor=1, storinv=1.0, invseg=0.5, extra=0.6, neff=(2, 3))],
    'C12': [F(stor=1, nstor=1, extra=0.5, onoff=0.2), F(srcsink=1, extra=0.6, onoff=0.2), F(trans=1, extra=0.4), F(excl=1, extra=0.4, onoff=0.3, compon=0.3, inv=0.2)],
    'C13': [F(neff=(2, 4), share=0.7, effp=0.95, tsp=0.7, uneq=0.9, extra=1, nconv=(0, 1)),
            F(neff=(2, 4), share=0.6, effp=0.8, tsp=0.6, onoff=0.6, starts=0.5, oneff=0.9, hist=0.5, inv=0.5, invseg=0.3, extra=1, nconv=(0, 1)),
            F(neff=(3, 4), share=0.9, effp=0.9, stor=0.4, nstor=1, storinv=0.7, extra=1),
            F(neff=(2, 3), share=0.5, effp=0.9, onoff=0.3, oneff=0.9, starts=0.5, dup=0.6, extra=1)],
    'C14': [dict(F(neff=(2, 3), share=0.5, effp=0.95, uneq=0.9, tsp=0.5, inv=0.5, extra=1, nconv=(0, 1)), tight='eff'),
            dict(F(neff=(2, 3), share=0.6, effp=0.95, uneq=0.9, tsp=0.5, onoff=0.4, oneff=0.8, extra=1, nconv=(0, 0)), tight='eff')],
    'C15': [dict(ALL, T=(2, 3), slackfree=0.1)],
    'C16': [F(trans=1, tsp=0.6, extra=0.3), F(trans=1, inv=0.6, invseg=0.2, extra=0.3, tsp=0.5), F(trans=1, compon=0.5, onoff=0.4, starts=0.4, oneff=0.4, hist=0.4, extra=0.3)],
    'C17': [dict(ALL, uneq=0.95, tsp=0.6, onoff=0.4),
            dict(ALL, T=(3, 7), uneq=0.8, tsp=0.8, onoff=0.4, stor=0.4, hist=0.5, window=1),
            F(T=(3, 7), uneq=0.9, tsp=0.9, stor=0.6, nstor=1, onoff=0.6, hist=0.6, runlim=0.7, oneff=0.7, starts=0.5, extra=1, effp=0.8, share=0.5, neff=(1, 3), pw=0.2, window=1),
            F(uneq=1, stor=0.8, nstor=1, onoff=0.4, hist=0.8, runlim=0.8, oneff=0.4, extra=1, effp=0.7)],
}

# real solves: longer horizons, everything bounded
S = dict(slackfree=0.1)
TRACE = {
    'C01': [dict(F(pen=0.8, nconv=(0, 2), tsp=0.7, uneq=0.8, stor=0.3, effp=0.6, extra=0.8, prof=0.6, inv=0.1, onoff=0.2), T=(3, 8), **S),
            dict(F(pen=0.8, defpen=1, nconv=(0, 2), prof=0.6, extra=0.9, effp=0.5), T=(3, 8), **S)],
    'C02': [dict(F(prof=0.5, rmin=0.8, lf=0.4, onoff=0.3, hist=0.3, extra=1, effp=0.8, inv=0.2, nconv=(0, 1)), T=(3, 8), **S)],
    'C03': [dict(F(nconv=(1, 3), prof=0.5, extra=0.8, effp=0.7, inv=0.1, onoff=0.1), T=(3, 8), **S)],
    'C04': [dict(F(pw=1, prof=0.7, extra=0.9, effp=0.8, compon=0.4, onoff=0.3), T=(3, 6), **S)],
    'C05': [dict(F(stor=1, nstor=2, prof=0.7, extra=1, effp=0.8, uneq=0.9, tsp=0.7), T=(3, 10), **S)],
    'C06': [dict(F(stor=1, nstor=2, storinv=0.4, prof=0.6, extra=1, effp=0.9, uneq=0.8), T=(3, 10), **S)],
    'C07': [dict(F(onoff=0.7, compon=0.4, onhours=0.6, prof=0.4, extra=1, effp=0.9, rmin=0.7, oneff=0.5, nconv=(0, 2), inv=0.2), T=(3, 8), **S)],
    'C08': [dict(F(onoff=0.8, compon=0.4, runlim=1, hist=0.8, prof=0.4, extra=1, effp=0.9, rmin=0.7, oneff=0.6, nconv=(0, 1)), T=(4, 10), **S)],
    'C09': [dict(F(onoff=0.8, compon=0.4, starts=0.8, oneff=0.8, hist=0.8, prof=0.4, extra=1, effp=0.9, rmin=0.7, neff=(1, 3), nconv=(0, 1)), T=(3, 8), **S)],
    'C10': [dict(F(inv=0.9, stor=0.5, storinv=0.8, rmin=0.5, prof=0.4, extra=1, effp=0.9, nconv=(0, 1)), T=(3, 8), **S)],
    'C11': [dict(F(inv=0.9, invseg=0.5, stor=0.3, storinv=0.8, extra=1, effp=0.9, neff=(2, 3), share=0.3, nconv=(0, 1), prof=0.3), T=(3, 6), **S)],
    'C12': [dict(F(stor=0.6, srcsink=0.6, trans=0.6, excl=0.6, prof=0.4, extra=0.8, effp=0.9), T=(3, 6), **S)],
    'C13': [dict(ALL, neff=(2, 4), share=0.7, effp=0.9, T=(3, 8), **S)],
    'C14': [dict(F(neff=(2, 3), share=0.5, effp=0.95, inv=0.4, extra=1, nconv=(0, 1), prof=0.4, pen=0.8), T=(3, 6), lims=1, **S)],
    'C15': [dict(ALL, T=(3, 8), **S)],
    'C16': [dict(F(trans=1, tsp=0.6, inv=0.4, extra=1, effp=0.9, prof=0.5, pen=0.7), T=(3, 8), **S)],
    'C17': [dict(ALL, uneq=0.9, tsp=0.6, T=(3, 8), **S), dict(ALL, uneq=0.9, tsp=0.8, T=(4, 12), onoff=0.4, hist=0.5, stor=0.4, window=1, **S)],
}

# quantities compared for allowed behaviours -> properties they belong to
DIFFS = [('operation of', {'C13', 'C09'}), ('invest of', {'C11', 'C13'}), ('sum of', {'C13'}), ('objective', {'C15', 'C13', 'C01'}), ('charge state', {'C05'}),
         ('net discharge', {'C05'}), ('flow hours', {'C02', 'C17'}), ('invested of', {'C10'}), ('status of', {'C07'}), ('off of', {'C07'}), ('on hours', {'C07', 'C17'}),
         ('consecutive', {'C08'}), ('switch', {'C09'}), ('starts of', {'C09'}), ('excess', {'C01'}), ('penalty', {'C01'})]

# beyond its own clauses, a violation of these clauses seen in the systems generated for the
# property counts as well (consequences of the same rule seen from the other side)
ALSO = {
    'C01': set(), 'C02': {'C07'}, 'C03': set(), 'C04': {'C07'}, 'C05': {'C06'}, 'C06': {'C05'}, 'C07': set(), 'C08': set(), 'C09': set(),
    'C10': {'C02', 'C06'}, 'C11': {'C13'}, 'C12': {'C07'}, 'C13': {'C11', 'C01', 'C09'}, 'C14': {'C13'}, 'C15': set(), 'C16': {'C07', 'C10', 'C11', 'C13'}, 'C17': None,
}


def props_of(d, P):
    """properties a discrepancy found in a family of P speaks about"""
    if d['what'].startswith('forbidden'):
        return {c[:3] for c in d['clauses']}
    if d['what'].endswith('valued differently'):
        out = set()
        for name, *_ in d['diffs']:
            for k, ps in DIFFS:
                if name.startswith(k):
                    out |= ps
                    break
        return out
    if d['what'].startswith('reported'):
        return {c[:3] for _, c in d['clauses']}
    return {P}


def counts(d, P):
    also = ALSO[P]
    ps = props_of(d, P)
    return also is None or P in ps or bool(ps & also)
