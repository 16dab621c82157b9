"""C21: saving, reloading and tables (spec/Saved.tla, spec/Tables.tla)."""
import copy
import datetime
import json
import os
import pathlib
import random
import tempfile

import numpy as np

import build
import jobs
import lifejobs
import refs
import tlc

SCALE = 1000000
NAMES = ['calc', 'Sim 1', 'Wärme_Lauf', 'a.b', 'x-1']
FOLDERS = ['results', 'out/deep/er', 'mit Leer zeichen']


def millionths(v):
    return [int(round(float(x) * SCALE)) for x in np.atleast_1d(np.asarray(v, dtype=float))]


def stamps_of(D):
    """the time stamps a calculation of the whole system has (minutes since its start)"""
    out = [0]
    for h in D['dt']:
        out.append(out[-1] + int(round(h * 60)))
    return out


def minutes(ts):
    t0 = np.datetime64('2021-03-01T00:00')
    return [int(round(x)) for x in (np.asarray(ts, dtype='datetime64[us]') - t0) / np.timedelta64(1, 'm')]


def wanted(D, kd):
    """time stamps and step lengths of a calculation of this kind"""
    st = stamps_of(D)
    idx = kd['idx']
    idx = list(range(D['T'])) if idx is None else (list(idx) if kd.get('each') else list(range(*idx)))
    return [st[i] for i in idx] + [st[idx[-1] + 1]]


def memory(calc, kd):
    """what the calculation returns, frozen"""
    res = calc.results(combined_arrays=True) if kd['k'] == 'seg' else calc.results()
    return lifejobs.freeze(res)


def described(D):
    """the structure of the system: flows, buses, components as the user defined them"""
    flows = []
    for c in D['comps']:
        for i, fl in enumerate(c['flows']):
            flows.append(dict(label='%s__%s' % (c['label'], fl['label']), comp=c['label'], bus=D['buses'][fl['bus']]['label'], flow=fl['label'], i=i))
    return flows


def role(c, i):
    """1: the flow is an input of its component"""
    k = c['cls']
    if k == 'Source':
        return 0
    if k == 'Sink':
        return 1
    if k == 'SourceAndSink':
        return 1 if i == 0 else 0
    if k in ('Linear', 'Component'):
        return int(i < c['nin'])
    if k == 'Transmission':
        return int(i in (0, 2))
    if k == 'CoolingTower':
        return 1
    if k == 'HPSource':
        return int(i < 2)
    return int(i == 0)


def contents(D, values):
    """the case of spec/Tables.tla of saved values (frozen: path -> array)"""
    flows = []
    for c in D['comps']:
        for i, fl in enumerate(c['flows']):
            flows.append({'label': '%s__%s' % (c['label'], fl['label']), 'comp': c['label'], 'bus': D['buses'][fl['bus']]['label'], 'in': role(c, i),
                          'v': millionths(values['Components/%s/%s/flow_rate' % (c['label'], fl['label'])])})
    buses = []
    used = {f['bus'] for f in flows}
    for b in D['buses']:
        if b['label'] in used:
            buses.append(dict(label=b['label'], ein=[], eout=[]))
            for k, key in (('ein', 'excess_input'), ('eout', 'excess_output')):
                v = values.get('Buses/%s/%s' % (b['label'], key))
                buses[-1][k] = [] if v is None else millionths(v)
            if (b['pen'] is not None) != bool(buses[-1]['ein']) or (b['pen'] is not None) != bool(buses[-1]['eout']):
                raise KeyError('excess of bus ' + b['label'])
    return dict(flows=flows, buses=buses, comps=[c['label'] for c in D['comps']])


def table(r, q):
    """the real table for a request, as the specification writes it"""
    fac = {0: None, 1: 1, -1: -1}
    df = r.to_dataframe(q['label'], input_factor=fac[q['fin']], output_factor=fac[q['fout']], threshold=None if q['thr'] < 0 else q['thr'] / SCALE,
                        with_last_time_step=bool(q['last']))
    cols = [(str(c), millionths(df[c].to_numpy())) for c in df.columns]
    if len({c for c, _ in cols}) != len(cols):
        raise ValueError('columns named alike')
    if df.empty:
        return dict(cols=cols, stamps=None)
    return dict(cols=cols, stamps=minutes(df.index.to_numpy()))


def differs(got, exp):
    have, want = dict(got['cols']), {c['name']: c for c in exp['cols']}
    for n in have:
        if n not in want:
            return 'column %s is too much' % n
    for n, c in want.items():
        if n not in have:
            if c['sure']:
                return 'column %s is missing' % n
            continue
        if len(have[n]) != len(c['v']):
            return 'column %s has %d rows instead of %d' % (n, len(have[n]), len(c['v']))
        for t, (a, b) in enumerate(zip(have[n], c['v'])):
            if abs(a - b) > 1:
                return 'column %s: %g instead of %g in row %d' % (n, a / SCALE, b / SCALE, t)
    if have and got['stamps'] != exp['stamps']:
        return 'rows are at %s instead of %s' % (got['stamps'], exp['stamps'])
    return None


def loaded_state(r):
    return lifejobs.freeze(r.all_results)


def compare_loaded(r, was, D, kd):
    """reloaded results against those returned in memory when they were saved"""
    now = loaded_state(r)
    for k in was:
        if k not in now and not (isinstance(was[k], np.ndarray) and was[k].size == 0):
            return '%s is missing' % k
    for k in now:
        if k not in was:
            return '%s is new' % k
    for k in was:
        a, b = was[k], now[k]
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return '%s: %s instead of %s' % (k, b, a)
        elif np.shape(a) != np.shape(b):
            return '%s has another shape: %s instead of %s' % (k, np.shape(b), np.shape(a))
        elif not np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True):
            return '%s: %s instead of %s' % (k, b, a)
    st = wanted(D, kd)
    if minutes(r.time_with_end) != st or minutes(r.time) != st[:-1]:
        return 'time stamps %s instead of %s' % (minutes(r.time_with_end), st)
    if not np.allclose(np.asarray(r.time_intervals_in_hours, dtype=float) * 60, np.diff(st)):
        return 'step lengths %s' % r.time_intervals_in_hours
    # roles
    flows = r.flow_results()
    if sorted(flows) != sorted('%s__%s' % (c['label'], fl['label']) for c in D['comps'] for fl in c['flows']):
        return 'the flows are ' + ', '.join(sorted(flows))
    for c in D['comps']:
        for i, fl in enumerate(c['flows']):
            f = flows['%s__%s' % (c['label'], fl['label'])]
            if bool(f.is_input_in_component) != bool(role(c, i)) or f.bus_label != D['buses'][fl['bus']]['label'] or f.component_label != c['label']:
                return 'role of flow ' + f.label_full
            if not np.array_equal(np.asarray(f.variables['flow_rate'], dtype=float), now['Components/%s/%s/flow_rate' % (c['label'], fl['label'])]):
                return 'rates of flow ' + f.label_full
        if c['cls'] == 'Storage' and not np.array_equal(np.asarray(r.component_results[c['label']].variables['charge_state'], dtype=float), now['Components/%s/charge_state' % c['label']]):
            return 'contents of ' + c['label']
    if sorted(r.component_results) != sorted(c['label'] for c in D['comps']):
        return 'the components are ' + ', '.join(sorted(r.component_results))
    if sorted(r.bus_results) != sorted({D['buses'][fl['bus']]['label'] for c in D['comps'] for fl in c['flows']}):
        return 'the buses are ' + ', '.join(sorted(r.bus_results))
    eff = {e['label'] for e in D['effs']}
    if not eff <= set(r.effect_results) or not set(r.effect_results) <= eff | {'Penalty'}:
        return 'the effects are ' + ', '.join(sorted(r.effect_results))
    for e in D['effs']:
        for k, v in refs.flat(r.effect_results[e['label']].all_results):
            if not np.array_equal(np.asarray(v, dtype=float), now['/'.join(('Effects', e['label']) + k)]):
                return 'effect %s %s' % (e['label'], '/'.join(k))
    return None


@lifejobs.quietly
def replay(U, hist, rq):
    """one sequence of spec/Saved.tla; returns (what is wrong or None, loads [(contents, requests with real tables)])"""
    Ds, kinds = U['Ds'], U['kinds']
    rng = random.Random(rq)
    B = build.build(Ds[0])
    sets = {s[0]: s for s in lifejobs.setters(Ds[0])}
    calcs, saved, objs, loads = {}, {}, [], []
    for n, h in enumerate(hist):
        op, i = h['op'], h['i']
        what = 'operation %d (%s)' % (n + 1, op)
        kd = kinds[h['p'] - 1] if h['p'] else None
        if op == 'new':
            calcs[i] = lifejobs.Kinds.make(kd, U['names'][h['nm'] - 1], B, Ds[0])
            if kd['k'] == 'full':
                lifejobs.Kinds.model(calcs[i])
        elif op == 'edit':
            for name in U['changes']:
                sets[name][2](B, Ds[h['v'] - 1])
        elif op == 'save':
            folder = U['folders'][h['f'] - 1]
            to = {0: folder, 1: pathlib.Path(folder), 2: os.path.abspath(folder)}[U['how']]
            if folder == 'results' and U['how'] == 0:
                to = True
            try:
                if kd['k'] == 'seg':
                    if to is True:
                        calcs[i].do_modeling_and_solve(jobs.solver())
                    else:
                        calcs[i].do_modeling_and_solve(jobs.solver(), save_results=to)
                else:
                    calcs[i].solve(jobs.solver(), save_results=to)
                err = None
            except Exception as e:
                err = e
            if (err is None) != (h['tok'] != 0):
                if kd['k'] == 'seg':
                    return None, loads      # a chain of segments may fail by chance
                return '%s: %s' % (what, 'error %r' % err if err is not None else 'no error'), loads
            if err is None:
                saved[h['tok']] = (memory(calcs[i], kd), Ds[h['v'] - 1], kd)
        elif op == 'load':
            name, folder = U['names'][h['nm'] - 1], U['folders'][h['f'] - 1]
            try:
                r = jobs.fx().results.CalculationResults(name, folder)
                err = None
            except FileNotFoundError as e:
                err = e
            except Exception as e:
                return '%s: could not be loaded: %r' % (what, e), loads
            if (err is None) != (h['tok'] != 0):
                return '%s: %s' % (what, 'files are missing' if err is not None else 'there are results though nothing was saved'), loads
            if err is None:
                was, D, kd = saved[h['tok']]
                bad = compare_loaded(r, was, D, kd)
                if bad:
                    return '%s: not what was saved: %s' % (what, bad), loads
                objs.append((n, r, loaded_state(r)))
                try:
                    cont = contents(D, was)
                except KeyError as e:
                    return '%s: the results lack %s' % (what, e), loads
                cont['T'] = len(wanted(D, kd)) - 1
                cont['stamps'] = wanted(D, kd)
                labels = cont['comps'] + [b['label'] for b in cont['buses']] + [f['label'] for f in cont['flows']]
                big = sorted({abs(x) for f in cont['flows'] for x in f['v']})
                cont.update(labels=rng.sample([b['label'] for b in cont['buses']], min(2, len(cont['buses']))) + rng.sample(labels, min(2, len(labels))), fins=rng.sample([-1, 1, 0], 2), fouts=rng.sample([-1, 1, 0], 2),
                            thrs=[10, rng.choice([-1, 0, 500000, big[len(big) // 2] + 100])])
                if max(big) > 2000 * SCALE // 10:
                    continue
                got = {}
                for q in requests(cont):
                    try:
                        got[json.dumps(q, sort_keys=True)] = table(r, q)
                    except Exception as e:
                        return '%s: table %s: %r' % (what, q, e), loads
                loads.append((cont, got))
    for n, r, was in objs:
        if not lifejobs.equal(loaded_state(r), was):
            return 'the results loaded in operation %d changed afterwards' % (n + 1), loads
    return None, loads


def requests(c):
    for l in dict.fromkeys(c['labels']):
        for a in c['fins']:
            for b in c['fouts']:
                for t in c['thrs']:
                    for la in (0, 1):
                        yield dict(label=l, fin=a, fout=b, thr=t, last=la)


def universe(seed, fam):
    rng = random.Random(seed + '/tab')
    U = lifejobs.universe(seed, fam)
    D = U['Ds'][0]
    # resolutions
    agg = any(k['how'] == 'agg' for k in U['kinds'])
    if not agg:
        unit = rng.choice(['m', 's', 'ms', 'us', 'ns', 'h', 'D'])
        days = unit == 'D'
        whole = unit in ('h', 'D')
        for E in U['Ds']:
            if whole:
                E['dt'] = [float(max(1, round(x))) * (24 if days else 1) for x in E['dt']]
            E['tunit'] = unit
            if days or rng.random() < 0.5:
                E['dt'][-1] = E['dt'][-2]
                E['nolast'] = True
        for E in U['Ds'][1:]:
            E['dt'] = list(D['dt'])
            E['nolast'] = D.get('nolast', False)
    U['names'] = rng.sample(NAMES, 2)
    U['folders'] = rng.sample(FOLDERS, 2)
    U['how'] = rng.randrange(3)
    return U


def sequences(cases):
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(cases, f)
    try:
        recs, st, _ = tlc.run('Saved', dict(CASES=f.name))
    finally:
        os.unlink(f.name)
    return recs, st


def tables(cases):
    """answers of spec/Tables.tla: list per case of {request: (table, off)}"""
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(cases, f)
    try:
        recs, st, _ = tlc.run('Tables', dict(CASES=f.name))
    finally:
        os.unlink(f.name)
    out = [{} for _ in cases]
    for r in recs:
        out[r['ci'] - 1][json.dumps(r['r'], sort_keys=True)] = (r['table'], r['off'])
    return out, st


def telling(h):
    score, seen = 1, set()
    for x in h:
        if x['op'] == 'load':
            score += 3 if x['tok'] else 1
            if x['tok'] in seen:
                score -= 1
            seen.add(x['tok'])
        if x['op'] == 'save':
            score += 1
    for a, b in zip(h, h[1:]):
        score += (a['op'] == 'save' and b['op'] == 'load' and b['tok'] != 0)
    return score ** 3


def tab_job(P, seed, fam, n, depth, most):
    out = jobs.new_out()
    us, cases = [], []
    k = 0
    while len(us) < n and k < 6 * n:
        k += 1
        U = universe('%s/%d' % (seed, k), fam)
        tabl = lifejobs.references(U)
        good = [i for i, row in enumerate(tabl) if not any('refused' in r for r in row)]
        U['kinds'] = [U['kinds'][i] for i in good]
        tabl = [tabl[i] for i in good]
        if not tabl or all(r['obj'] is None for row in tabl for r in row):
            continue
        us.append(U)
        jobs.add(out, 'time stamps in ' + U['Ds'][0].get('tunit', 'any'))
        for kd in U['kinds']:
            jobs.add(out, 'kind ' + kd['how'])
        cases.append(dict(kinds=[dict(k=kd['k'], ok=[int(r['obj'] is not None) for r in row]) for kd, row in zip(U['kinds'], tabl)],
                          versions=len(U['Ds']) if depth < 6 else 1, names=2, folders=2 if depth < 5 else 1, most=2, depth=depth))
    recs, st = sequences(cases)
    out['states'], out['transitions'] = st['states'], st['transitions']
    per = {}
    for r in recs:
        if any(x['op'] == 'save' for x in r['hist']):
            per.setdefault(r['ci'] - 1, []).append(r['hist'])
    rng = random.Random(seed)
    allloads = []
    for ci, hs in sorted(per.items()):
        jobs.add(out, 'sequences possible', len(hs))
        hs.sort(key=lambda h: json.dumps(h))
        w = [telling(h) for h in hs]
        for m, h in enumerate(rng.choices(hs, weights=w, k=min(most, len(hs)))):
            rq = '%s/%d/%d' % (seed, ci, m)
            st, r = refs.forked(replay, us[ci], h, rq)
            if st != 'ok':
                raise RuntimeError(r)
            bad, loads = r
            out['traces'] += 1
            for x in h:
                jobs.add(out, x['op'])
            item = dict(kind='tab', U=us[ci], hist=h, rq=rq)
            if bad:
                out['dis'].append(dict(item, what=bad + '; ' + ' '.join('%s(%s)' % (x['op'], x['i'] or x['nm']) for x in h)))
            allloads += [(item, cont, got) for cont, got in loads]
    if allloads:
        ans, st = tables([c for _, c, _ in allloads])
        out['states'] += st['states']
        out['transitions'] += st['transitions']
        for (item, cont, got), exp in zip(allloads, ans):
            bad = judge(out, got, exp)
            out['traces'] += len(got)
            if bad:
                out['dis'].append(dict(item, what=bad))
    if us:
        out['samples'].append(dict(kinds=us[0]['kinds'], names=us[0]['names'], sequence=per.get(0, [[]])[0]))
    return out


def judge(out, got, exp):
    if set(got) != set(exp):
        raise RuntimeError('requests differ')
    for q, g in got.items():
        t, off = exp[q]
        jobs.add(out, 'tables')
        jobs.add(out, 'columns', len(g['cols']))
        if off > 500:
            return 'the flows and the excess of %s do not balance: %g' % (q, off / SCALE)
        bad = differs(g, t)
        if bad:
            return 'table %s: %s' % (q, bad)
    return None


def tab_replay(P, item):
    st, r = refs.forked(replay, item['U'], item['hist'], item['rq'])
    if st != 'ok':
        raise RuntimeError(r)
    bad, loads = r
    if bad:
        print(bad)
        return True
    ans, _ = tables([c for c, _ in loads])
    for (cont, got), exp in zip(loads, ans):
        bad = judge(jobs.new_out(), got, exp)
        if bad:
            print(bad)
            return True
    return False


JOBS = {'tab': tab_job}
REPLAY = {'tab': tab_replay}
