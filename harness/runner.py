"""Runs the work packages of one check, writes its evidence, prints its verdict."""
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, 'known_findings.txt')


def known(P):
    """keys of the recorded findings of a property"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == P:
                out[m.group(2)] = m.group(3).strip()
    return out


def work(job):
    kind, kw = job
    t = time.time()
    # the solver writes its log to the console, whatever it is told
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)
    try:
        import jobs
        out = lookup(kind)(**kw)
    except Exception as e:
        tb = traceback.format_exc()
        code = os.path.join(os.environ.get('PYTHONPATH', '/repo'), 'flixOpt') + os.sep
        if any(f.filename.startswith(code) for f in traceback.extract_tb(e.__traceback__)):
            # raised inside the code under test by a valid use of it
            out = jobs.new_out()
            out['dis'].append(dict(kind='crash', job=[kind, kw], what='%s: the code under test raised %s' % (kind, tb.strip().splitlines()[-1][:300]), trace=tb))
            return out
        return dict(error='%s %s\n%s' % (kind, str(kw)[:300], tb))
    out['wall'] = round(time.time() - t, 1)
    return out


MODULES = ['jobs', 'mathjobs', 'tsjobs', 'regjobs', 'segjobs', 'lifejobs', 'tabjobs', 'aggjobs', 'optjobs', 'sumjobs', 'figjobs', 'docjobs', 'admjobs', 'stampjobs']


def lookup(kind, table='JOBS'):
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if kind in getattr(mod, table):
            return getattr(mod, table)[kind]
    raise KeyError(kind)


def save(P, i, item):
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%d.json' % (P, i))
    with open(p, 'w') as f:
        json.dump(item, f, default=str)
    return p


def main(P, tier, seed, replay=None):
    import plan
    t0 = time.time()
    if replay:
        item = json.load(open(replay))
        if item['kind'] == 'crash':
            try:
                lookup(item['job'][0])(**item['job'][1])
                shows = False
            except Exception:
                traceback.print_exc()
                shows = True
            print('VIOLATION property=%s replay=%s' % (P, replay) if shows else 'it does not show (any more)')
            return 1 if shows else 0
        shows = lookup(item['kind'], 'REPLAY')(P, item)
        print('what was found: ' + item['what'])
        print('VIOLATION property=%s replay=%s' % (P, replay) if shows else 'it does not show (any more)')
        return 1 if shows else 0
    js = plan.jobs(P, tier, seed)[::int(os.environ.get('VERIF_SHARE', 1))]    # only a part while developing
    import jobs
    total = jobs.new_out()
    errors = []
    n = min(8, os.cpu_count() or 8)
    for i in range(3):
        stale = os.path.join(ROOT, 'evidence', 'replay', '%s_%d.json' % (P, i))
        if os.path.exists(stale):
            os.unlink(stale)
    limit = float(os.environ.get('VERIF_LIMIT', 780 if tier != 'thorough' else 6 * 3600))
    done = 0
    with mp.get_context('fork').Pool(n, maxtasksperchild=4) as pool:
        it = pool.imap_unordered(work, js, chunksize=1)
        while done < len(js):
            try:
                r = it.next(timeout=max(1, limit - (time.time() - t0)))
            except mp.TimeoutError:
                print('time limit: %d of %d work packages done' % (done, len(js)))
                break
            done += 1
            if 'error' in r:
                errors.append(r['error'])
            else:
                jobs.merge(total, r)
    fnd = known(P)
    hits, fresh = {}, []
    for it in total['dis']:
        k = it.get('key')
        if k in fnd:
            hits.setdefault(k, []).append(it)
        else:
            fresh.append(it)
    fresh.sort(key=lambda it: (len(json.dumps(it.get('D', it), default=str)), it['what']))
    if os.environ.get('VERIF_DUMP'):
        with open(os.environ['VERIF_DUMP'], 'w') as f:
            json.dump(fresh, f, default=str)
    for k, its in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s (%d times in this run)' % (P, fnd[k], len(its)))
    for i, it in enumerate(fresh[:3]):
        p = save(P, i, it)
        print('  ' + it['what'][:600])
        print('VIOLATION property=%s replay=%s' % (P, p))
    cov = dict(states=total['states'], transitions=total['transitions'], traces_validated_against_impl=total['traces'],
               samples=total['samples'], jobs=done, counts=total['counts'], clauses=dict(sorted(total['clauses'].items())),
               known_findings_seen={k: len(v) for k, v in hits.items()})
    ev = dict(property=P, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(fresh),
              assumptions=plan.ASSUMPTIONS)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', P + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d work packages, %d states, %d transitions, %d behaviours/results compared with the code, %d discrepancies, %.0f s'
          % (P, tier, len(js), total['states'], total['transitions'], total['traces'], len(fresh), time.time() - t0))
    print(json.dumps(total['counts']))
    if fresh:
        return 1
    if errors:
        print('\n'.join(errors[:3]), file=sys.stderr)
        return 2
    if total['traces'] == 0:
        print('nothing was compared', file=sys.stderr)
        return 2
    return 0
