"""C25: what the summary of a calculation (main results, infos file) says, checked with spec/Summary.tla."""
import copy
import os
import pathlib
import random
import shutil
import tempfile

import numpy as np
import yaml

import build
import conform
import families
import gen
import jobs
import observe
import tocase
import windows
from tocase import NONE

F = families.F
FAMS = [F(T=(2, 6), pen=0.9, inv=0.5, invseg=0.2, neff=(1, 3), share=0.4, effp=0.9, extra=1, nconv=(0, 2), tsp=0.5, uneq=0.7, slackfree=0.3, nil=0.08),
        F(T=(2, 6), pen=0.9, stor=0.7, storinv=0.7, inv=0.3, neff=(1, 3), share=0.4, effp=0.9, extra=1, tsp=0.5, uneq=0.7, slackfree=0.3),
        F(T=(2, 6), pen=0.6, defpen=0.5, onoff=0.4, oneff=0.8, starts=0.4, hist=0.4, inv=0.3, trans=0.2, srcsink=0.2, neff=(2, 3), share=0.4, effp=0.9,
          extra=1, nconv=(1, 2), tsp=0.5, uneq=0.7, slackfree=0.3)]


def q(x):
    """within the numbers of the specification, whatever is shown"""
    return int(max(-5e8, min(5e8, observe.q(x))))


def shown(D, cs, main, info):
    """the summary in the terms of the specification"""
    odd = 0
    pen = float(main['penalty'])
    effs = []
    left = dict(main['Effects'])
    for i, e in enumerate(D['effs']):
        k = '%s [u%d]' % (e['label'], i)
        v = left.pop(k, None)
        effs.append([] if v is None else [q(v[x]) for x in ('operation', 'invest', 'sum')])
    odd += len(left)
    lab = {b['label']: i + 1 for i, b in enumerate(D['buses'])}
    exc = []
    for b in main['buses with excess']:
        if b in lab and lab[b] not in exc:
            exc.append(lab[b])
        else:
            odd += 1
    names = []
    for c in D['comps']:
        for f in c['flows']:
            if isinstance(f['size'], dict) and f['size']['kind'] == 'inv':
                names.append('%s__%s' % (c['label'], f['label']))
        if c['cls'] == 'Storage' and isinstance(c['cap'], dict):
            names.append(c['label'])
    yes, no = dict(main['Invest-Decisions']['invested']), dict(main['Invest-Decisions']['not invested'])
    inv = []
    for n in names:
        if (n in yes) == (n in no):
            inv.append([NONE, 0])
        else:
            inv.append([int(n in yes), q((yes if n in yes else no)[n])])
    # the flow back of a transmission gets the size of the other one
    for c in D['comps']:
        if c['cls'] == 'Transmission' and c['two']:
            for x in (c['flows'][0], c['flows'][2]):
                n = '%s__%s' % (c['label'], x['label'])
                if n not in names:
                    yes.pop(n, None)
                    no.pop(n, None)
    odd += len((set(yes) | set(no)) - set(names)) + len(set(yes) & set(no))
    lb = main['lower bound']
    lb = NONE if lb is None or not np.isfinite(float(lb)) or abs(float(lb)) > 1e5 else q(float(lb) - pen)
    n = info['Number of indices']
    return dict(effs=effs, pen=q(pen / cs['penscale']), obj=q(float(main['Objective']) - pen), lb=lb, exc=exc, inv=inv, odd=odd,
                asked=0 if n == 'all' else int(n))


def other(D, rng, B):
    """a second calculation of the same system"""
    T = windows.origin(D)[0]['T']
    n = rng.randint(2, T)
    a = rng.randint(0, T - n)
    return jobs.fx().FullCalculation('other', B.fs, time_indices=rng.choice([None, range(a, a + n)]))


def run(D, cs, way, seed):
    """results, and the summaries shown at various points"""
    rng = random.Random(seed)
    Df, idx = windows.origin(D)
    tmp = tempfile.mkdtemp(prefix='c25')
    try:
        B = build.build(Df)
        calc = jobs.fx().FullCalculation('c', B.fs, time_indices=idx)
        calc.do_modeling()
        try:
            calc.solve(jobs.solver(), save_results=tmp)
            if way == 'again':
                calc.solve(jobs.solver(), save_results=tmp)
        except Exception as e:
            raise jobs.Infeasible(repr(e))
        out = []

        def look(where, main, info):
            out.append((where, shown(D, cs, main, info)))
        look('main results', calc.system_model.main_results, calc.infos)
        with open(os.path.join(tmp, 'c_infos.yaml'), encoding='utf-8') as f:
            y = yaml.safe_load(f)
        look('the infos file', y['Model']['Main Results'], y['Calculation'])
        if (y['Calculation']['Name'], y['Calculation']['Calculation Type']) != ('c', 'FullCalculation'):
            out.append(('the infos file', None))
        if way in ('modelled', 'solved'):
            o = other(D, rng, B)
            o.do_modeling()
            if way == 'solved':
                try:
                    o.solve(jobs.solver())
                except Exception:
                    pass
            look('main results after another calculation was ' + way, calc.system_model.main_results, calc.infos)
        return calc.results(), out
    finally:
        shutil.rmtree(tmp)


def look_at(D, cs, way, seed):
    """(pairs for the specification, labels)"""
    res, shows = run(D, cs, way, seed)
    tr = observe.observe(D, cs, res)
    part = int(D.get('window') is not None)
    return tr, [(cs, dict(tr=tr, sm=s, part=part)) for _, s in shows if s is not None], [w for w, s in shows if s is not None], any(s is None for _, s in shows)


def sum_job(P, seed, fam, n):
    rng = random.Random(seed)
    out = jobs.new_out()
    pairs, meta = [], []
    for _ in range(n):
        D = gen.Gen(rng, **FAMS[fam]).system()
        if rng.random() < 0.3:
            D = windows.cut(D, windows.choose(D, rng, 2, 5))
        cs = tocase.to_case(D)
        way, s = rng.choice(['', '', 'again', 'modelled', 'solved']), rng.randrange(10 ** 9)
        item = dict(kind='sum', D=D, way=way, s=s)
        try:
            tr, ps, where, wrong = look_at(D, cs, way, s)
        except jobs.Infeasible:
            jobs.add(out, 'infeasible')
            continue
        except observe.Missing as e:
            out['dis'].append(dict(item, what='the results lack %s' % e))
            continue
        except Exception as e:
            out['dis'].append(dict(item, what='no summary: %r' % e))
            continue
        jobs.add(out, 'solved')
        if wrong:
            out['dis'].append(dict(item, what='the infos file names another calculation'))
        if not observe.tractable(tr):
            jobs.add(out, 'numbers_too_large')
            continue
        for p, w in zip(ps, where):
            pairs.append(p)
            meta.append((item, w))
            jobs.add(out, 'with_excess', int(bool(p[1]['sm']['exc'])))
            jobs.add(out, 'investments', len(p[1]['sm']['inv']))
    bad, st = conform.tlc_traces(pairs, module='Summary')
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    out['traces'] += len(pairs)
    if pairs:
        out['samples'].append(dict(system=meta[0][0]['D'], shown=pairs[0][1]['sm']))
    for (item, w), b in zip(meta, bad):
        if b:
            out['dis'].append(dict(item, what='%s: %s' % (w, ', '.join(c for _, c in b))))
    return out


def sum_replay(P, item):
    D = item['D']
    cs = tocase.to_case(D)
    try:
        tr, ps, where, wrong = look_at(D, cs, item['way'], item['s'])
    except jobs.Infeasible:
        return False
    except Exception as e:
        print(repr(e))
        return True
    bad, _ = conform.tlc_traces(ps, module='Summary')
    print(list(zip(where, bad)))
    return wrong or any(bad)


JOBS = dict(sum=sum_job)
REPLAY = dict(sum=sum_replay)
