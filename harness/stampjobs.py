"""C17: time axes made from a start, an interval and a length (spec/Stamps.tla) against create_datetime_array."""
import random

import numpy as np

import jobs
import tlc


def wrong(r):
    fx = jobs.fx()
    start = np.datetime64(r['start'].replace(' ', 'T')).astype('datetime64[s]')
    kw = dict(freq=r['freq'])
    g = r['goal']
    if g['by'] in ('end', 'both'):
        kw['end'] = str(start + np.timedelta64(r['end'], 's'))
    if g['by'] in ('steps', 'both'):
        kw['steps'] = g['n'] if g['by'] == 'steps' else 5
    try:
        got = fx.create_datetime_array(r['start'], **kw)
    except Exception as e:
        return None if not r['ok'] else 'time axis from %s (%s) refused: %s' % (r['start'], kw, str(e)[:100])
    if not r['ok']:
        return 'time axis from %s (%s) made: %s...' % (r['start'], kw, got[:3])
    want = start + np.array(r['axis'], dtype='timedelta64[s]')
    got = np.asarray(got).astype('datetime64[s]')
    if got.shape != want.shape or np.any(got != want):
        return 'time axis from %s (%s): %s..., expected %s...' % (r['start'], kw, [str(x) for x in got[:4]], [str(x) for x in want[:4]])
    return None


def stamps_job(P, seed, n):
    rng = random.Random(seed)
    out = jobs.new_out()
    recs, st, _ = tlc.run('Stamps', {})
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    for r in rng.sample(recs, min(n, len(recs))):
        out['traces'] += 1
        jobs.add(out, 'time axes')
        bad = wrong(r)
        if bad:
            out['dis'].append(dict(kind='stamps', what=bad, item=r))
    return out


def stamps_replay(P, item):
    bad = wrong(item['item'])
    print(bad)
    return bool(bad)


JOBS = dict(stamps=stamps_job)
REPLAY = dict(stamps=stamps_replay)
