"""C28: contradictory definitions are refused, admissible ones accepted (spec/Admission.tla, spec/Settings.tla)."""
import os
import random
import tempfile

import numpy as np

import jobs
import tlc

KINDS = ['flow', 'series', 'converter', 'transmission', 'start', 'axis', 'weight', 'effects', 'periods']


def stamps(minutes):
    t = [np.datetime64('2021-02-27T22:00')]
    for m in minutes:
        t.append(t[-1] + np.timedelta64(int(m), 'm'))
    return np.array(t)


def system(fx, n, costs=True):
    fs = fx.FlowSystem(stamps([60] * (n - 1)), last_time_step_hours=1)
    c = None
    if costs:
        c = fx.Effect('costs', '', '', is_standard=True, is_objective=True)
        fs.add_elements(c)
    return fs, c


def model(fx, fs):
    fx.FullCalculation('x', fs).do_modeling()


def wave(n, lo, hi):
    """values which differ from each other"""
    return np.linspace(lo, hi, n)


def with_flow(fx, d, rng):
    fs, _ = system(fx, 3)
    form = [rng.choice('at') for _ in range(2)]

    def data(v, f):
        if len(v) == 1:
            return v[0] / 2 if rng.random() < 0.8 else fx.TimeSeriesData(v[0] / 2)
        a = np.array(v) / 2
        return a if f == 'a' else fx.TimeSeriesData(a, agg_group=rng.choice([None, 'g']))
    size = rng.choice([8, 8, None, 'invest', 'fixed'])
    size = fx.InvestParameters(minimum_size=1, maximum_size=5) if size == 'invest' else fx.InvestParameters(fixed_size=5) if size == 'fixed' else size
    f = fx.Flow('q', bus=fx.Bus('b'), size=size, relative_minimum=data(d['lo'], form[0]), relative_maximum=data(d['hi'], form[1]),
                on_off_parameters=fx.OnOffParameters() if rng.random() < 0.3 else None)
    fs.add_elements(fx.Source('s', source=f) if rng.random() < 0.5 else fx.Sink('s', sink=f))
    model(fx, fs)


def with_series(fx, d, rng):
    fs, costs = system(fx, 4, costs=False)
    a, n = d['a'], d['n']
    b, b2 = fx.Bus('b'), fx.Bus('b2')

    def v(lo, hi):
        x = wave(n, lo, hi)
        return x if rng.random() < 0.5 else fx.TimeSeriesData(x)
    eff = {k: v(50, 90) if k.startswith('max') else v(-9, -5) for k in [a] if k.endswith('operation_per_hour')}
    costs = fx.Effect('costs', '', '', is_standard=True, is_objective=True, **eff)
    fs.add_elements(costs)
    flow = {}
    if a in ('relative_minimum', 'relative_maximum', 'fixed_relative_profile', 'effects_per_flow_hour'):
        flow[a] = {'relative_minimum': lambda: v(0, .2), 'effects_per_flow_hour': lambda: v(1, 3)}.get(a, lambda: v(.5, .9))()
        if a.startswith('eff') and rng.random() < 0.5:
            flow[a] = {costs: flow[a]}
    if a in ('effects_per_running_hour', 'effects_per_switch_on'):
        flow['on_off_parameters'] = fx.OnOffParameters(**{a: v(1, 3)})
    fs.add_elements(fx.Source('s', source=fx.Flow('q', bus=b, size=9, **flow)))
    if a in ('relative_minimum_charge_state', 'relative_maximum_charge_state', 'relative_loss_per_hour', 'eta_charge', 'eta_discharge'):
        x = v(0, .1) if a in ('relative_minimum_charge_state', 'relative_loss_per_hour') else v(.8, .9)
        fs.add_elements(fx.Storage('st', charging=fx.Flow('i', bus=b, size=5), discharging=fx.Flow('o', bus=b, size=5), capacity_in_flow_hours=7, **{a: x}))
    if a in ('conversion_factor', 'segment'):
        i, o = fx.Flow('i', bus=b, size=9), fx.Flow('o', bus=b2, size=9)
        if a == 'segment':
            kw = dict(segmented_conversion_factors={i: [(0, 2), (2, v(4, 5))], o: [(0, 1), (1, 4)]})
        else:
            kw = dict(conversion_factors=[{i: v(1, 2), o: 1}])
        fs.add_elements(fx.LinearConverter('k', inputs=[i], outputs=[o], **kw))
    if a == 'share_operation':
        e = fx.Effect('e', '', '', specific_share_to_other_effects_operation={costs: v(1, 2)})
        fs.add_elements(e)
    if a == 'excess_penalty':
        b3 = fx.Bus('b3', excess_penalty_per_flow_hour=v(1, 2))
        fs.add_elements(fx.Sink('u', sink=fx.Flow('q', bus=b3, size=3)))
    if a in ('relative_losses', 'absolute_losses'):
        fs.add_elements(fx.Transmission('t', in1=fx.Flow('i', bus=b, size=9), out1=fx.Flow('o', bus=b2, size=9), **{a: v(.1, .2)}))
    model(fx, fs)


def with_converter(fx, d, rng):
    fs, _ = system(fx, 3)
    (ni, no) = d['n']
    fl = []
    for k in range(ni + no):
        size = 9
        if k == ni + no - 1 or rng.random() < 0.2:
            size = fx.InvestParameters(maximum_size=7) if d['free'] and k == ni + no - 1 else rng.choice([9, fx.InvestParameters(fixed_size=7)])
        fl.append(fx.Flow('f%d' % k, bus=fx.Bus('b%d' % k), size=size))
    # the flow of another component: alike in name and bus
    other = fx.Flow('f0', bus=fl[0].bus, size=9)
    fs.add_elements(fx.Source('other', source=other))
    eqs = [{(fl[x - 1] if x else other): rng.choice([1, 2, np.array([1., 2., 1.5])]) for x in e} for e in d['eqs']]
    kw = dict(segmented_conversion_factors={f: [(0, 2 + i), (2 + i, 5 + i)] for i, f in enumerate(fl)}) if d['segs'] else {}
    c = fx.LinearConverter('k', inputs=fl[:ni], outputs=fl[ni:], conversion_factors=eqs or rng.choice([None, []]), **kw)
    fs.add_elements(c)
    model(fx, fs)


def with_transmission(fx, d, rng):
    fs, costs = system(fx, 3)
    b = {k: fx.Bus(k) for k in 'ABC'}

    def flow(n, bus):
        s = fx.InvestParameters(maximum_size=9, specific_effects=1) if n in d['inv'] else rng.choice([9, 8])
        return fx.Flow(n, bus=b[bus], size=s)
    kw = {}
    if d['in2'] != '-':
        kw = dict(in2=flow('in2', d['in2']), out2=flow('out2', d['out2']))
    t = fx.Transmission('t', in1=flow('in1', 'A'), out1=flow('out1', 'B'), relative_losses=rng.choice([0, .1]), absolute_losses=rng.choice([0, 1]), **kw)
    fs.add_elements(t)
    model(fx, fs)


def with_start(fx, d, rng):
    fs, _ = system(fx, 3)
    b = fx.Bus('b')
    v = {'none': None, '0': 0, '3': 3, '2.5': 2.5}.get(d['v'], d['v'])
    cap = rng.choice([5, fx.InvestParameters(maximum_size=5)])
    fs.add_elements(fx.Storage('s', charging=fx.Flow('i', bus=b, size=3), discharging=fx.Flow('o', bus=b, size=3), capacity_in_flow_hours=cap, initial_charge_state=v))
    model(fx, fs)


def with_axis(fx, d, rng):
    fs = fx.FlowSystem(stamps([60 * s for s in d['steps']]), last_time_step_hours=rng.choice([None, 1]))
    fs.add_elements(fx.Effect('costs', '', '', is_standard=True, is_objective=True))
    fs.add_elements(fx.Source('s', source=fx.Flow('q', bus=fx.Bus('b'), size=9)))
    model(fx, fs)


def with_weight(fx, d, rng):
    data = rng.choice([3, np.array([1., 2., 3.])])
    fx.TimeSeriesData(data, agg_group=d['group'] or None, agg_weight=float(d['weight']) if d['weight'] else None)


def with_effects(fx, d, rng):
    fs, _ = system(fx, 3, costs=False)
    main = fx.Effect('main', '', '', is_standard=bool(d['standard']), is_objective=bool(d['objective']))
    e = fx.Effect('e', '', '')
    P = d['places']
    shares = {}
    if 'share_operation' in P:
        shares['specific_share_to_other_effects_operation'] = {e: 2}
    if 'share_invest' in P:
        shares['specific_share_to_other_effects_invest'] = {e: 3}
    els = [main, fx.Effect('third', '', '', **shares)]
    if d['added'] == 'yes':
        els.append(e)
    rng.shuffle(els)
    inv = fx.InvestParameters(minimum_size=1, maximum_size=5, fix_effects={e: 1} if 'fix' in P else None, specific_effects={e: 2} if 'specific' in P else None,
                              divest_effects={e: 3} if 'divest' in P else None,
                              effects_in_segments=([(1, 2), (2, 5)], {e: [(1, 3), (3, 4)]}) if 'segments' in P else None)
    on = fx.OnOffParameters(effects_per_switch_on={e: 1} if 'start' in P else None, effects_per_running_hour={e: 2} if 'running' in P else None)
    b = fx.Bus('b')
    f = fx.Flow('q', bus=b, size=inv, effects_per_flow_hour={e: 2} if 'flow_hour' in P else None)
    g = fx.Flow('q', bus=b, size=5, on_off_parameters=on, effects_per_flow_hour=2 if d['none'] else None)
    fs.add_elements(*els)
    fs.add_elements(fx.Source('s', source=f), fx.Sink('u', sink=g))
    model(fx, fs)


def with_periods(fx, d, rng):
    n = 8 * d['period'] * 30 // d['step']
    mins = [d['step']] * n
    if d['odd']:
        mins[rng.randrange(1, n - 1)] += rng.choice([-15, 15, 30])
    fs = fx.FlowSystem(stamps(mins[:-1]), last_time_step_hours=mins[-1] / 60)
    fs.add_elements(fx.Effect('costs', '', '', is_standard=True, is_objective=True))
    b = fx.Bus('b')
    prof = np.array([rng.randint(1, 9) for _ in range(n)], dtype=float)
    prof[0] = 0
    fs.add_elements(fx.Source('s', source=fx.Flow('q', bus=b, size=99, effects_per_flow_hour=1)), fx.Sink('u', sink=fx.Flow('q', bus=b, size=1, fixed_relative_profile=prof)))
    p = fx.AggregationParameters(d['period'] / 2, 2, False, True)
    fx.AggregatedCalculation('x', fs, p).do_modeling()


def refused(kind, d, seed):
    """the error the definition ends in, or none"""
    fx = jobs.fx()
    f = globals()['with_' + kind]
    try:
        f(fx, d, random.Random(seed))
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:200])
    return None


def wrong(kind, d, ok, seed):
    r = refused(kind, d, seed)
    if ok and r:
        return 'an admissible definition is refused (%s)' % r
    if not ok and not r:
        return 'a contradictory definition is accepted'
    return None


def adm_job(P, seed, kind, n):
    rng = random.Random(seed)
    out = jobs.new_out()
    recs, st, _ = tlc.run('Admission', dict(KIND=kind))
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    yes, no = [r for r in recs if r['ok']], [r for r in recs if not r['ok']]
    jobs.add(out, 'definitions judged by the specification', len(recs))
    # both kinds; contradictions of which most are alike are thinned out less than the admissible
    for rs, k in ((yes, n), (no, n)):
        for r in (rng.sample(rs, k) if len(rs) > k else rs):
            s = '%s/%s' % (seed, r['d'])
            out['traces'] += 1
            jobs.add(out, 'definitions made', 1)
            bad = wrong(kind, r['d'], r['ok'], s)
            if bad:
                out['dis'].append(dict(kind='adm', what='%s: %s' % (kind, bad), item=dict(kind=kind, d=r['d'], ok=r['ok'], seed=s)))
    return out


def adm_replay(P, item):
    i = item['item']
    bad = wrong(i['kind'], i['d'], i['ok'], i['seed'])
    print(bad)
    return bool(bad)


# ---------------------------------------------------------------- the configuration in effect
def written(f):
    """the text of a configuration file"""
    def line(ind, k, v):
        return '' if v == '-' else '%s%s: %s\n' % (' ' * ind, k, v)
    return (line(0, 'config_name', f['name']) + 'logging:\n' + line(2, 'level', f['level']) + line(2, 'file', f['file']) + line(2, 'rich', 'false')
            + 'modeling:\n' + line(2, 'BIG', f['big']) + line(2, 'EPSILON', f['eps']) + line(2, 'BIG_BINARY_BOUND', f['bound']))


def act(step):
    """whether the code takes it"""
    from flixOpt import config
    C = config.CONFIG
    w = step['what']
    try:
        if step['act'] == 'load':
            with open('given.yaml', 'w') as f:
                f.write(written(w))
            C.load_config('given.yaml')
        elif step['act'] == 'nofile':
            C.load_config('nowhere.yaml')
        elif step['act'] == 'standard':
            C.load_config()
        elif step['act'] == 'assign':
            setattr(C.modeling, dict(big='BIG', eps='EPSILON', bound='BIG_BINARY_BOUND')[w[0]], eval(w[1]))
        else:
            config.change_logging_level(w)
    except Exception:
        return False
    return True


def in_effect(step, fx):
    """differences from the configuration the specification has after the step"""
    import logging
    from flixOpt.config import CONFIG
    n = step['now']
    lg = logging.getLogger('flixOpt')
    m, td = CONFIG.modeling, CONFIG.to_dict()
    want = dict(name=n['name'], big=int(n['big']), eps=float(n['eps']), bound=int(n['bound']), level=n['level'], file=[n['file']], log=step['lvl'], size=int(n['big']), invest=int(n['big']),
                dict=dict(BIG=int(n['big']), EPSILON=float(n['eps']), BIG_BINARY_BOUND=int(n['bound'])))
    got = dict(name=CONFIG.config_name, big=m.BIG, eps=m.EPSILON, bound=m.BIG_BINARY_BOUND, level=CONFIG.logging.level,
               file=[os.path.basename(h.baseFilename) for h in lg.handlers if hasattr(h, 'baseFilename')], log=logging.getLevelName(lg.level),
               size=fx.Flow('q', bus=fx.Bus('b')).size, invest=fx.InvestParameters().maximum_size, dict={k: td['modeling'][k] for k in ('BIG', 'EPSILON', 'BIG_BINARY_BOUND')})
    return {k: (got[k], want[k]) for k in want if got[k] != want[k]}


def follow(steps):
    import logging
    fx = jobs.fx()
    from flixOpt.config import CONFIG
    lg = logging.getLogger('flixOpt')
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            CONFIG.load_config()
            for i, s in enumerate(steps):
                before = list(lg.handlers)
                ok = act(s)
                for h in before:
                    if h not in lg.handlers:
                        h.close()
                if ok != s['ok']:
                    return 'configuration, step %d (%s %s): %s' % (i, s['act'], s['what'], 'accepted' if ok else 'refused')
                bad = in_effect(s, fx)
                if bad:
                    return 'configuration after step %d (%s %s): %s' % (i, s['act'], s['what'], bad)
        finally:
            before = list(lg.handlers)
            CONFIG.load_config()
            for h in before + list(lg.handlers):
                h.close()
            os.chdir(here)
    return None


def set_job(P, seed, n):
    rng = random.Random(seed)
    out = jobs.new_out()
    recs, st, _ = tlc.run('Settings', {})
    out['states'] += st['states']
    out['transitions'] += st['transitions']
    for r in rng.sample(recs, min(n, len(recs))):
        out['traces'] += 1
        jobs.add(out, 'configuration behaviours')
        bad = follow(r['steps'])
        if bad:
            out['dis'].append(dict(kind='set', what=bad, item=r['steps']))
    return out


def set_replay(P, item):
    bad = follow(item['item'])
    print(bad)
    return bool(bad)


JOBS = dict(adm=adm_job, set=set_job)
REPLAY = dict(adm=adm_replay, set=set_replay)
