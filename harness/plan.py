"""The work packages of each check."""
import families

ASSUMPTIONS = [
    'TLC evaluates the specification correctly; HiGHS decides feasibility of the (small) pinned problems correctly',
    'pyomo hands the model it holds to the solver unchanged',
    'numbers are compared in fixed point (1e-4); violations smaller than 0.02 are not judged',
]


def jobs(P, tier, seed):
    js = []
    thorough = tier == 'thorough'
    if P in families.EXPLORE:
        fams = families.EXPLORE[P]
        n = (16 if P != 'C15' else 8) if not thorough else 96
        for i in range(max(n, len(fams))):
            js.append(('explore', dict(P=P, fam=fams[i % len(fams)], seed='%s/%s/A%d' % (seed, P, i), n=36, deep=thorough)))
    if P in families.TRACE:
        fams = families.TRACE[P]
        for i in range(8 if not thorough else 48):
            js.append(('trace', dict(P=P, fam=fams[i % len(fams)], seed='%s/%s/B%d' % (seed, P, i), n=20)))
    if P == 'C15':
        for i in range(24 if not thorough else 200):
            if i % 3 == 0:
                js.append(('gap', dict(P=P, seed='%s/%s/K%d' % (seed, P, i), n=8)))
            js.append(('opt', dict(P=P, seed='%s/%s/O%d' % (seed, P, i), n=6)))
    if P == 'C17':
        js.append(('stamps', dict(P=P, seed='%s/%s/U' % (seed, P), n=10 ** 6)))
    if P == 'C23':
        for i in range(24 if not thorough else 160):
            js.append(('math', dict(P=P, mode='build', seed='%s/%s/M%d' % (seed, P, i), n=4, nmax=3 if not thorough or i % 4 else 4)))
        for i in range(16 if not thorough else 120):
            js.append(('math', dict(P=P, mode='solve', seed='%s/%s/S%d' % (seed, P, i), n=25)))
    if P == 'C24':
        for i in range(16 if not thorough else 100):
            js.append(('ts', dict(P=P, seed='%s/%s/T%d' % (seed, P, i), n=4, depth=3 if not thorough or i % 2 else 4, most=500 if not thorough else 4000)))
    if P == 'C22':
        for i in range(24 if not thorough else 160):
            js.append(('reg', dict(P=P, seed='%s/%s/R%d' % (seed, P, i), n=10, depth=3 if i % 3 else 4, most=40 if not thorough else 150)))
    if P == 'C18':
        n = 24 if not thorough else 160
        for i in range(n):
            js.append(('seg', dict(P=P, seed='%s/%s/G%d' % (seed, P, i), fam=i % 3, n=22 if not thorough else 36, maxL=9 if not thorough else 12, part=i // 3, parts=n // 3)))
    if P == 'C20':
        for i in range(24 if not thorough else 200):
            js.append(('life', dict(P=P, seed='%s/%s/L%d' % (seed, P, i), fam=i % 4, n=2 if i % 2 else 1, depth=5 if i % 2 else 6, inspect=i % 2, most=9 if not thorough else 60)))
    if P == 'C21':
        for i in range(24 if not thorough else 200):
            js.append(('tab', dict(P=P, seed='%s/%s/S%d' % (seed, P, i), fam=i % 4, n=2, depth=4 + (i % 4 == 0), most=6 if not thorough else 60)))
    if P == 'C25':
        for i in range(24 if not thorough else 200):
            js.append(('sum', dict(P=P, seed='%s/%s/Z%d' % (seed, P, i), fam=i % 3, n=16 if not thorough else 40)))
    if P == 'C26':
        for i in range(16 if not thorough else 200):
            js.append(('fig', dict(P=P, seed='%s/%s/H%d' % (seed, P, i), n=30 if not thorough else 60)))
        for i in range(16 if not thorough else 160):
            js.append(('drawn', dict(P=P, seed='%s/%s/J%d' % (seed, P, i), n=5 if not thorough else 12)))
    if P == 'C27':
        for i in range(24 if not thorough else 200):
            js.append(('doc', dict(P=P, seed='%s/%s/D%d' % (seed, P, i), fam=i % 5, n=6 if not thorough else 20)))
    if P == 'C28':
        for k, m in dict(flow=4, series=3, converter=4, transmission=3, start=1, axis=2, weight=1, effects=5).items():
            for i in range(m if not thorough else 8 * m):
                js.append(('adm', dict(P=P, seed='%s/%s/%s%d' % (seed, P, k, i), kind=k, n=60 if not thorough else 400)))
        for i in range(8 if not thorough else 40):
            js.append(('adm', dict(P=P, seed='%s/%s/periods%d' % (seed, P, i), kind='periods', n=3)))
        for i in range(4 if not thorough else 24):
            js.append(('set', dict(P=P, seed='%s/%s/S%d' % (seed, P, i), n=200 if not thorough else 600)))
    if P == 'C19':
        for i in range(24 if not thorough else 200):
            js.append(('agg', dict(P=P, seed='%s/%s/P%d' % (seed, P, i), n=14, deep=thorough)))
        for i in range(12 if not thorough else 100):
            js.append(('aggtrace', dict(P=P, seed='%s/%s/Q%d' % (seed, P, i), n=6)))
    return js
