"""C18: segmented calculations, checked as behaviours of spec/Segmented.tla."""
import copy
import json
import os
import random
import tempfile
import traceback

import numpy as np

import build
import families
import gen
import jobs
import observe
import tlc
import tocase
import windows
from tocase import NONE

F = families.F
FAMS = [F(pen=0.7, stor=0.9, nstor=2, onoff=0.3, hist=0.5, prof=0.6, extra=1, effp=0.9, uneq=0.6, tsp=0.5, rmin=0.3, slackfree=0.1),
        F(pen=0.7, onoff=0.6, compon=0.4, hist=0.7, runlim=0.5, starts=0.3, oneff=0.7, prof=0.5, extra=1, effp=0.9, nconv=(0, 2), tsp=0.5, uneq=0.5, slackfree=0.1, rmin=0.6),
        F(stor=0.6, onoff=0.3, hist=0.4, nconv=(1, 2), pw=0.2, trans=0.3, srcsink=0.2, excl=0.1, share=0.4, neff=(1, 3), prof=0.5, extra=1, effp=0.9, tsp=0.6,
          uneq=0.6, pen=0.8, oneff=0.4, slackfree=0.1)]


def plan(maxL):
    recs, st, _ = tlc.run('SegPlan', dict(MAXL=maxL))
    return recs, st


def enc(v):
    """a start value"""
    if v is None:
        return [NONE]
    if isinstance(v, str):
        return [-7] + [ord(ch) for ch in v]
    return [observe.q(x) for x in np.atleast_1d(np.asarray(v, dtype=float))]


def starts(B):
    out = [enc(f.previous_flow_rate) for f in B.flows]
    for c in B.comps:
        if type(c).__name__ == 'Storage':
            out.append(enc(c.initial_charge_state))
    return out


def surge(D, at):
    """makes the time step `at` impossible"""
    D = copy.deepcopy(D)
    D['buses'].append(dict(label='Z', pen=None))
    b = len(D['buses']) - 1
    blank = dict(rmin=0, rmax=1, eff=[], onoff=None, prev=None, fhmin=None, fhmax=None, lfmin=None, lfmax=None)
    prof = [1.0] * D['T']
    prof[at] = 5.0
    D['comps'].append(dict(cls='Source', label='zs', flows=[dict(blank, label='q', bus=b, size=dict(kind='num', v=10), prof=None)]))
    D['comps'].append(dict(cls='Sink', label='zd', flows=[dict(blank, label='q', bus=b, size=dict(kind='num', v=5), prof=prof)]))
    return D


def leaves(parts, comb, lens):
    """every array of the individual results with its counterpart in the combined ones"""
    out = []

    def walk(path, vals, c):
        if isinstance(vals[0], dict):
            for k in vals[0]:
                walk(path + [k], [v[k] for v in vals], c.get(k) if isinstance(c, dict) else None)
            return
        if path == ['Time']:
            t0 = np.datetime64('2021-03-01T00:00')
            conv = lambda v: [int(round(x)) for x in (np.asarray(v, dtype='datetime64[us]') - t0) / np.timedelta64(1, 'm')]
        else:
            conv = lambda v: [observe.q(x) if abs(float(x)) < 2e5 else 0 for x in np.asarray(v, dtype=float)]
        for points in (0, 1):
            if all(isinstance(v, np.ndarray) and v.ndim == 1 and len(v) == n + points for v, n in zip(vals, lens)):
                try:
                    out.append(dict(name='/'.join(path), points=points, parts=[conv(v) for v in vals], comb=conv(c) if c is not None else []))
                except (TypeError, ValueError):
                    out.append(dict(name='/'.join(path), points=points, parts=[conv(v) for v in vals], comb=[]))
    walk([], parts, comb)
    return out


def one_run(D, idx, cfg, twice):
    """runs the segmented calculation; the record for spec/Segmented.tla"""
    B = build.build(D)
    before = starts(B)
    sel = list(range(D['T'])) if idx is None else list(idx)
    calc = jobs.fx().SegmentedCalculation('seg', B.fs, cfg['S'], cfg['O'], time_indices=idx)
    err = None
    for _ in range(2 if twice else 1):
        try:
            calc.do_modeling_and_solve(jobs.solver(), save_results=False)
            err = None
        except Exception as e:
            err = e
    after = starts(B)
    subs = list(calc.sub_calculations)
    run = dict(L=cfg['L'], S=cfg['S'], O=cfg['O'], ok=int(err is None), before=before, after=after, wins=[], arrays=[])
    if err is None:
        parts = list(calc.results(individual_results=True).values())
        comb = calc.results(combined_arrays=True)
    else:
        parts, comb = [s.results() for s in subs[:-1]], None
    sv = calc.start_values_of_segments if subs else {}
    names = list(sv)
    for j, res in enumerate(parts):
        # which steps the window used, by its time stamps
        tm = np.asarray(res['Time'], dtype='datetime64[us]')
        pos = {t: i for i, t in enumerate(np.asarray(B.time[sel], dtype='datetime64[us]'))}
        ix = [pos.get(t, -1) + 1 for t in tm[:-1]]
        if 0 in ix:
            raise observe.Missing('time stamps of window %d are not of the selected steps: %s' % (j + 1, tm))
        Dw = windows.cut(D, [sel[i - 1] for i in ix])
        cs = tocase.to_case(Dw)
        tr = observe.observe(Dw, cs, res)
        rec = dict(ix=ix, cs=cs, tr=tr, start=dict(x=[], c=[]), faint=0)
        if j > 0:
            v = sv[names[j]]
            rec['faint'] = int(any(1e-8 < abs(float(v[f.label_full])) < 0.011 for f in B.flows))
            rec['start'] = dict(x=[observe.q(v[f.label_full]) for f in B.flows],
                                c=[observe.q(v[c.label_full]) for c in B.comps if type(c).__name__ == 'Storage'])
        run['wins'].append(rec)
    if err is None:
        run['arrays'] = leaves(parts, comb, [len(w['ix']) for w in run['wins']])
    return run, err, B, calc


def really_fails(D, idx, cfg, run):
    """after a failure: can the window which failed be solved on its own with the state handed over?  None: no"""
    sel = list(range(D['T'])) if idx is None else list(idx)
    j = len(run['wins'])
    if j >= len(cfg['w']):
        return 'the calculation failed after its last window'
    B = build.build(D)
    if j:
        tr = run['wins'][-1]['tr']
        S = cfg['S']
        for f, x in zip(B.flows, tr['x'][S - 1]):
            f.previous_flow_rate = x / 1e4
        for c, x in zip([c for c in B.comps if type(c).__name__ == 'Storage'], tr['c'][S - 1]):
            c.initial_charge_state = x / 1e4
    w = jobs.fx().FullCalculation('w', B.fs, time_indices=[sel[i - 1] for i in cfg['w'][j]])
    try:
        w.do_modeling()
    except Exception as e:
        return 'window %d cannot be modelled: %r' % (j + 1, e)
    try:
        w.solve(jobs.solver())
    except Exception:
        return None
    return 'window %d failed though it can be solved' % (j + 1)


def tlc_runs(runs):
    if not runs:
        return [], dict(states=0, transitions=0)
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(runs, f)
    try:
        recs, st, _ = tlc.run('Segmented', dict(CASES=f.name))
    finally:
        os.unlink(f.name)
    out = [None] * len(runs)
    for r in recs:
        out[r['ci'] - 1] = sorted((x[0], x[1]) for x in r['bad'])
    if any(o is None for o in out):
        raise tlc.TLCError('no verdict for some runs')
    return out, st


def tractable(run):
    return all(observe.tractable(w['tr']) for w in run['wins'])


def scenario(rng, cfg, fam):
    extra = rng.choice([0, 0, 1, 2, 3])
    T = cfg['L'] + extra
    D = gen.Gen(rng, **dict(fam, T=(T, T))).system()
    idx = None
    if extra:
        idx = windows.choose(D, rng, cfg['L'], cfg['L'])
        if idx == list(range(idx[0], idx[-1] + 1)) and rng.random() < 0.7:
            idx = range(idx[0], idx[-1] + 1)
    sel = list(range(T)) if idx is None else list(idx)
    w = cfg['w']
    fail = None
    if len(w) > 1 and rng.random() < 0.2:
        late = [i for i in range(1, cfg['L'] + 1) if i not in w[0]]
        if late:
            fail = rng.choice(late)
            D = surge(D, sel[fail - 1])
    return D, idx, fail, rng.random() < 0.2


def seg_job(P, seed, fam, n, maxL, part, parts):
    rng = random.Random(seed)
    out = jobs.new_out()
    cfgs, st = plan(maxL)
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    cfgs.sort(key=lambda c: (c['L'], c['S'], c['O']))
    several = [c for c in cfgs if len(c['w']) > 1]
    mine = [c for c in several[part::parts]] + rng.sample([c for c in cfgs if len(c['w']) == 1], 1)
    # windows of unequal length are where the combination is most delicate
    odd = [c for c in several if len(c['w'][-1]) > len(c['w'][0])]
    mine += rng.sample(odd, min(len(odd), max(1, n // 8)))
    rng.shuffle(mine)
    runs, meta = [], []
    for i in range(n):
        cfg = mine[i % len(mine)]
        D, idx, fail, twice = scenario(rng, cfg, FAMS[fam])
        item = dict(kind='seg', D=D, idx=None if idx is None else list(idx), rng=isinstance(idx, range), cfg=cfg, twice=twice)
        try:
            run, err, B, calc = one_run(D, idx, cfg, twice)
        except observe.Missing as e:
            out['dis'].append(dict(item, what='the results of a segmented calculation lack %s' % e))
            continue
        if err is not None:
            jobs.add(out, 'failing window' if fail else 'window without solution')
            what = really_fails(D, idx, cfg, run)
            if what:
                out['dis'].append(dict(item, what=what + ': ' + repr(err)[:200]))
                continue
        elif fail:
            out['dis'].append(dict(item, what='a window without any solution was passed over'))
            continue
        else:
            jobs.add(out, 'solved')
        if not tractable(run):
            jobs.add(out, 'numbers_too_large')
            continue
        runs.append(run)
        meta.append(item)
    bad, st = tlc_runs(runs)
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    out['traces'] += len(runs)
    for run, item, b in zip(runs, meta, bad):
        jobs.add(out, 'windows', len(run['wins']))
        if b:
            out['dis'].append(dict(item, what='L=%(L)d S=%(S)d O=%(O)d: ' % run + ', '.join('%s (window %d, step %d)' % (c, s // 100, s % 100) for s, c in b[:6])))
    if runs:
        out['samples'].append(dict(system=meta[0]['D'], L=runs[0]['L'], S=runs[0]['S'], O=runs[0]['O'], windows=[w['ix'] for w in runs[0]['wins']]))
    return out


def seg_replay(P, item):
    D, cfg = item['D'], item['cfg']
    idx = item['idx']
    if idx is not None and item['rng']:
        idx = range(idx[0], idx[-1] + 1)
    try:
        run, err, B, calc = one_run(D, idx, cfg, item['twice'])
    except observe.Missing as e:
        print(e)
        return True
    if err is not None:
        what = really_fails(D, idx, cfg, run)
        if what:
            print(what)
            return True
    elif any(c['label'] == 'zd' for c in D['comps']):
        return True
    bad, _ = tlc_runs([run])
    print(bad[0])
    return bool(bad[0])


JOBS = dict(seg=seg_job)
REPLAY = dict(seg=seg_replay)
