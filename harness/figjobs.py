"""C26: what figures, heat maps and network drawings show (spec/Figures.tla, spec/HeatMap.tla, spec/Network.tla)."""
import copy
import datetime
import json
import os
import random
import re
import shutil
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.colors
import matplotlib.dates
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

import build
import gen
import jobs
import lifejobs
import tabjobs
import tlc

SCALE = 1000000
EPS = 10  # millionths
PAIRS = [('YS', 'W'), ('YS', 'D'), ('YS', 'h'), ('MS', 'D'), ('MS', 'h'), ('W', 'D'), ('W', 'h'), ('D', 'h'), ('D', '15min'), ('h', '15min'), ('h', 'min')]
WIDTH = {'min': 1, '15min': 15, 'h': 60, 'D': 1440, 'W': 10080}
COLORS = ['#ff0000', '#00ff00', '#0000ff', '#ffff00', '#ff00ff', '#00ffff', '#808080']


def ask(module, cases):
    """the specification's answer to every case"""
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(cases, f)
    try:
        recs, st, _ = tlc.run(module, dict(CASES=f.name))
    finally:
        os.unlink(f.name)
    out = [None] * len(cases)
    for r in recs:
        out[r['ci'] - 1] = r
    if any(r is None for r in out):
        raise tlc.TLCError('no answer to some cases')
    return out, st


# ---------------------------------------------------------------- heat maps
def heat_case(stamps, v, per, st, fill):
    """stamps: ascending datetimes of whole minutes"""
    a = stamps[0]
    w = WIDTH[st]
    if st == 'W':
        s = datetime.datetime(a.year, a.month, a.day) - datetime.timedelta(days=a.weekday())
    else:
        day = datetime.datetime(a.year, a.month, a.day)
        s = day + datetime.timedelta(minutes=(int((a - day).total_seconds()) // 60) // w * w)
    return dict(start=dict(y=s.year, mo=s.month, d=s.day, h=s.hour, mi=s.minute, wd=s.isoweekday(), doy=s.timetuple().tm_yday, wk=int(s.strftime('%W'))),
                before=int((a - s).total_seconds()) // 60, at=[int((x - a).total_seconds()) // 60 for x in stamps], v=[int(x) for x in v], per=per, st=st,
                fill=fill or '')


def random_heat(rng):
    per, st = rng.choice(PAIRS)
    w = WIDTH[st]
    near = rng.choice([datetime.datetime(rng.choice([2019, 2020, 2021, 2023, 2024]), 12, 31, 22), datetime.datetime(2020, 2, 28, 20), datetime.datetime(2021, 2, 28, 20),
                       datetime.datetime(2100, 2, 27, 12), datetime.datetime(2000, 2, 28, 12), datetime.datetime(2022, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23)),
                       datetime.datetime(2024, 12, 27), datetime.datetime(2021, 4, 29, 23)])
    bins = rng.randint(2, 70)
    # begin some bins before the boundary
    a = near - datetime.timedelta(minutes=w * rng.randint(0, bins)) + datetime.timedelta(minutes=rng.choice([0, 0, rng.randint(0, 59), rng.randint(0, 10000)]))
    if a.year < 2001 and st == 'W':
        a = a.replace(year=2004)
    ways = rng.random()
    total = w * bins
    if ways < 0.35:
        step = rng.choice([w, w, 2 * w, max(1, w // 2), max(1, w // 3), 3 * w])
        at = list(range(0, total, step))[:90]
    else:
        at = sorted({rng.randint(0, total) for _ in range(rng.randint(2, 60))})
        if rng.random() < 0.2:
            at += [rng.choice(at)]
        at = sorted(at)
        at = [x - at[0] for x in at]
    if len(at) < 2:
        at = [0, w]
    stamps = [a + datetime.timedelta(minutes=x) for x in at]
    v = [rng.choice([0, rng.randint(-50, 50), rng.randint(-2000, 2000)]) for _ in at]
    return dict(stamps=[x.isoformat() for x in stamps], v=v, per=per, st=st, fill=rng.choice([None, 'ffill', 'bfill']), order=rng.random() < 0.2, seed=rng.randrange(10 ** 6),
                show=rng.choice(['', '', 'plotly', 'matplotlib']), two=rng.random() < 0.2)


def numbers(s):
    return [int(x) for x in re.findall(r'\d+', str(s))]


def same_heat(df, exp, scale=1.0, tol=1e-6):
    """what differs between a table for a heat map and the specification's matrix"""
    if df.shape != (len(exp['rows']), len(exp['cols'])):
        return 'a heat map of %d rows and %d columns instead of %d and %d' % (df.shape + (len(exp['rows']), len(exp['cols'])))
    for kind, have, want in (('column', df.columns, exp['cols']), ('row', df.index, exp['rows'])):
        for h, w in zip(have, want):
            if numbers(h)[:len(w)] != list(w):
                return '%s %r of the heat map should be %s' % (kind, h, w)
    m = df.to_numpy(dtype=float)
    for r in range(len(exp['rows'])):
        for c in range(len(exp['cols'])):
            s, n = exp['m'][r][c]
            if (n == 0) != bool(np.isnan(m[r][c])) or (n and abs(m[r][c] - s / n / scale) > tol):
                return 'the heat map shows %s at %s / %s instead of %s' % (m[r][c], exp['cols'][c], exp['rows'][r], s / n / scale if n else 'nothing')
    return None


def same_drawing(df, fig, engine):
    """what differs between a table and the heat map drawn of it"""
    v = df.to_numpy(dtype=float)
    if np.all(np.isnan(v)):
        return None
    lo, hi = np.nanmin(v), np.nanmax(v)
    if engine == 'plotly':
        if len(fig.data) != 1 or fig.data[0].type != 'heatmap':
            return 'no heat map'
        h = fig.data[0]
        if [str(x) for x in h.x] != [str(x) for x in df.columns] or [str(x) for x in h.y] != [str(x) for x in df.index]:
            return 'other names of rows or columns'
        z = np.array(h.z, dtype=float)
        if fig.layout.yaxis.autorange != 'reversed':
            return 'the first row is not on top'
        lims = (h.zmin, h.zmax)
    else:
        ax = fig[1]
        ms = [c for c in ax.collections if c.get_array() is not None]
        if len(ms) != 1:
            return 'no heat map'
        z = np.ma.filled(np.ma.asarray(ms[0].get_array(), dtype=float), np.nan).reshape(v.shape)
        if [t.get_text() for t in ax.get_xticklabels()] != [str(x) for x in df.columns] or [t.get_text() for t in ax.get_yticklabels()] != [str(x) for x in df.index]:
            return 'other names of rows or columns'
        y = ax.get_ylim()
        if not y[0] > y[1]:
            return 'the first row is not on top'
        bar = [a for a in fig[0].axes if a is not ax]
        lims = bar[0].get_xlim() if len(bar) == 1 else (np.nan, np.nan)
        if lo == hi:
            lims = (lo, hi)
    if z.shape != v.shape or not np.allclose(z, v, rtol=1e-9, atol=1e-9, equal_nan=True):
        return 'the heat map drawn does not show the values'
    if not np.allclose(np.array(lims, dtype=float), (lo, hi)):
        return 'the colours reach from %s to %s, the values from %s to %s' % (lims + (lo, hi))
    return None


def table_of(h):
    df = pd.DataFrame({'a column': [float(x) for x in h['v']]}, index=pd.DatetimeIndex([datetime.datetime.fromisoformat(s) for s in h['stamps']]))
    if h['two']:
        df['another'] = -7.0
    if h['order']:
        df = df.sample(frac=1, random_state=h['seed'])
    return df


def try_heat(h, exp):
    from flixOpt import plotting
    df = table_of(h)
    was = df.copy(deep=True)
    out = plotting.heat_map_data_from_df(df, h['per'], h['st'], h['fill'])
    bad = same_heat(out, exp)
    if bad is None and not df.equals(was):
        bad = 'the table handed over was altered'
    if bad is None and h['show']:
        kept = out.copy(deep=True)
        if h['show'] == 'plotly':
            fig = plotting.heat_map_plotly(out)
            bad = same_drawing(kept, fig, 'plotly')
        else:
            fig = plotting.heat_map_matplotlib(out)
            bad = same_drawing(kept, fig, 'matplotlib')
            plt.close('all')
    return bad


def case_of_heat(h):
    return heat_case([datetime.datetime.fromisoformat(s) for s in h['stamps']], h['v'], h['per'], h['st'], h['fill'])


# ---------------------------------------------------------------- figures
def random_table(rng):
    n, T = rng.randint(1, 6), rng.randint(2, 9)
    tab = []
    for _ in range(n):
        k = rng.choice(['zero', 'pos', 'neg', 'mix', 'tiny', 'postiny', 'negtiny', 'any'])
        col = []
        for _ in range(T):
            big, tiny = rng.choice([rng.randint(11, 9999), 11, 500000, 1000000, rng.randint(10 ** 6, 8 * 10 ** 7)]), rng.randint(1, 9)
            x = {'zero': 0, 'pos': rng.choice([0, big]), 'neg': -rng.choice([0, big]), 'mix': rng.choice([-1, 1]) * big, 'tiny': rng.choice([-1, 1]) * tiny,
                 'postiny': rng.choice([big, tiny, -tiny]), 'negtiny': -rng.choice([big, tiny, -tiny]), 'any': rng.choice([0, big, -big, tiny, -tiny])}[k]
            col.append(x)
        tab.append(col)
    mode = rng.choice(['bar', 'line', 'area', 'area'])
    engine = 'plotly' if mode == 'area' else rng.choice(['plotly', 'matplotlib'])
    idx = rng.choice(['dates', 'dates', 'hours'])
    steps = [rng.choice([15, 60, 60, 120]) for _ in range(T)] if rng.random() < 0.5 else [60] * T
    at = [0]
    for s in steps[:-1]:
        at.append(at[-1] + s)
    return dict(tab=tab, mode=mode, engine=engine, idx=idx, at=at, colors=rng.choice(['viridis', 'plasma', 'list']), fig=rng.random() < 0.25, save=rng.random() < 0.06,
                named=rng.sample(['In(x)', 'Wärme', 'c', '0', 'flow__a', 'B', 'b'], n), perm=rng.sample(range(7), 7))


def frame_of(q):
    if q['idx'] == 'dates':
        index = pd.DatetimeIndex([datetime.datetime(2021, 3, 1) + datetime.timedelta(minutes=m) for m in q['at']])
    else:
        index = pd.Index([m / 60 for m in q['at']])
    return pd.DataFrame({n: [x / SCALE for x in c] for n, c in zip(q['named'], q['tab'])}, index=index)


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1.2e-6)


def moments(x):
    x = np.asarray(x)
    if x.dtype.kind == 'M':
        return x.astype('datetime64[s]').astype(float)
    if x.dtype.kind == 'O':
        return np.array([np.datetime64(v, 's') for v in x]).astype(float)
    return x.astype(float)


def same_plotly(fig, names, index, exp, mode, colors=None, keep=0):
    """what differs between a plotly figure and what the specification draws"""
    traces = list(fig.data)[keep:]
    have = sorted(str(t.name) for t in traces)
    if have != sorted(names):
        return 'the figure shows %s instead of %s' % (have, sorted(names))
    groups = {}
    for t in traces:
        i = names.index(t.name)
        d = exp['drawn'][i]
        if not close(t.y, np.array(d['y']) / SCALE):
            return '%s is drawn as %s instead of %s' % (t.name, list(t.y), [x / SCALE for x in d['y']])
        if not close(moments(t.x), moments(index)):
            return '%s is drawn at other times' % t.name
        if mode == 'bar':
            if t.type != 'bar' or fig.layout.barmode != 'relative':
                return '%s is no stacked bar' % t.name
            col = t.marker.color
        else:
            if t.type != 'scatter' or t.line.shape != 'hv':
                return '%s is no line of steps' % t.name
            col = t.line.color
            if mode == 'line' or d['kind'] == ['dash']:
                if t.stackgroup:
                    return '%s is stacked' % t.name
            elif not t.stackgroup:
                return '%s is not stacked' % t.name
            else:
                groups.setdefault(t.stackgroup, []).append(i)
        if colors is not None and col != colors[i]:
            return '%s has the colour %s instead of %s' % (t.name, col, colors[i])
    if len(groups) > 2:
        return '%d stacks' % len(groups)
    where = {}
    for g, cols in groups.items():
        poss = set(exp['drawn'][cols[0]]['kind'])
        for i in cols:
            poss &= set(exp['drawn'][i]['kind'])
        if not poss:
            return 'columns of different signs are stacked on each other: %s' % [names[i] for i in cols]
        if len(poss) == 1:
            p = poss.pop()
            if p in where:
                return 'several stacks for the same sign'
            where[p] = g
    return None


def same_matplotlib(fax, names, index, exp, mode, colors=None):
    fig, ax = fax
    x = matplotlib.dates.date2num(index.to_pydatetime()) if isinstance(index, pd.DatetimeIndex) else np.asarray(index, dtype=float)
    if mode == 'line':
        lines = list(ax.lines)
        if sorted(l.get_label() for l in lines) != sorted(names):
            return 'the figure shows %s' % sorted(l.get_label() for l in lines)
        for l in lines:
            i = names.index(l.get_label())
            lx = np.asarray(l.get_xdata())
            lx = matplotlib.dates.date2num(lx) if lx.dtype.kind in 'MO' else lx.astype(float)
            if not close(lx, x) or not close(l.get_ydata(), np.array(exp['drawn'][i]['y']) / SCALE) or l.get_drawstyle() != 'steps-post':
                return '%s is drawn otherwise' % names[i]
            if colors is not None and matplotlib.colors.to_hex(l.get_color()) != colors[i]:
                return '%s has another colour' % names[i]
        return None
    want, shade = [], {}
    labels = ax.get_legend_handles_labels()
    for h, l in zip(*labels):
        if l in names:
            shade.setdefault(names.index(l), matplotlib.colors.to_hex(h[0].get_facecolor()))
    if len(shade) != len(names):
        return 'the legend lacks columns'
    if colors is not None and any(shade[i] != colors[i] for i in shade):
        return 'other colours'
    if len(set(shade.values())) != len(names):
        return None  # columns cannot be told apart
    for i, d in enumerate(exp['drawn']):
        for t in range(len(x)):
            for h, b in ((d['pos'][t], d['posfrom'][t]), (d['neg'][t], d['negfrom'][t])):
                if h:
                    want.append((shade[i], x[t], b / SCALE, h / SCALE))
    have = []
    for r in ax.patches:
        if abs(r.get_height()) > 1e-9:
            have.append((matplotlib.colors.to_hex(r.get_facecolor()), r.get_x() + r.get_width() / 2, r.get_y(), r.get_height()))
    if len(have) != len(want):
        return '%d bars instead of %d' % (len(have), len(want))
    key = lambda r: (r[0], round(r[1], 4), r[3] > 0)
    for a, b in zip(sorted(have, key=key), sorted(want, key=key)):
        if a[0] != b[0] or abs(a[1] - b[1]) > 1e-4 or abs(a[2] - b[2]) > 5e-6 or abs(a[3] - b[3]) > 1.2e-6:
            return 'a bar at %s from %g by %g instead of from %g by %g' % (a[1], a[2], a[3], b[2], b[3])
    return None


def try_figure(q, exp):
    import plotly.graph_objects as go
    from flixOpt import plotting
    df = frame_of(q)
    was = df.copy(deep=True)
    colors = [COLORS[i] for i in q['perm']][:len(q['tab'])] if q['colors'] == 'list' else q['colors']
    given = colors if isinstance(colors, list) else None
    tmp = tempfile.mkdtemp(prefix='c26')
    try:
        kw = {}
        if q['engine'] == 'plotly':
            path = os.path.join(tmp, 'x.html')
            old = go.Figure()
            if q['fig']:
                old.add_trace(go.Scatter(x=[1, 2], y=[3.0, 4.0], name='old'))
            fig = plotting.with_plotly(df, q['mode'], colors=colors, fig=old if q['fig'] else None, save=q['save'], path=path)
            bad = same_plotly(fig, q['named'], was.index, exp, q['mode'], given, keep=int(q['fig']))
            if bad is None and q['fig'] and (fig.data[0].name != 'old' or list(fig.data[0].y) != [3.0, 4.0]):
                bad = 'what the figure showed before is lost'
        else:
            path = os.path.join(tmp, 'x.png')
            if q['fig']:
                kw = dict(zip(('fig', 'ax'), plt.subplots()))
            fax = plotting.with_matplotlib(df, q['mode'], colors=colors, path=path if q['save'] else None, **kw)
            bad = same_matplotlib(fax, q['named'], was.index, exp, q['mode'], given)
            if bad is None and kw and (fax[0] is not kw['fig'] or fax[1] is not kw['ax']):
                bad = 'drawn on another figure'
            plt.close('all')
        if bad is None and not df.equals(was):
            bad = 'the table handed over was altered'
        if bad is None and os.path.exists(path) != q['save']:
            bad = 'the figure is %ssaved' % ('not ' if q['save'] else '')
        return bad
    finally:
        shutil.rmtree(tmp)


def try_2d(rng_v):
    """a series cut into columns"""
    from flixOpt import plotting
    v, n = rng_v
    m = plotting.reshape_to_2d(np.array(v), n)
    if m.shape != (n, -(-len(v) // n)):
        return 'an array of the shape %s' % (m.shape,)
    for c in range(m.shape[1]):
        for r in range(n):
            i = c * n + r
            if (i < len(v)) != (not np.isnan(m[r][c])) or (i < len(v) and m[r][c] != v[i]):
                return 'value %d is not at row %d, column %d' % (i, r, c)
    return None


def fig_job(P, seed, n):
    rng = random.Random(seed)
    out = jobs.new_out()
    hs = [random_heat(rng) for _ in range(n)]
    qs = [random_table(rng) for _ in range(2 * n)]
    eh, st = ask('HeatMap', [case_of_heat(h) for h in hs])
    ef, st2 = ask('Figures', [dict(mode=q['mode'], tab=q['tab'], eps=EPS) for q in qs])
    for k in ('states', 'transitions'):
        out[k] += st[k] + st2[k]
    for h, e in zip(hs, eh):
        note(out, dict(kind='heat', h=h), lambda: try_heat(h, e))
        jobs.add(out, 'heat_maps')
    for q, e in zip(qs, ef):
        note(out, dict(kind='figure', q=q), lambda: try_figure(q, e))
        jobs.add(out, 'figures')
    for _ in range(n):
        x = ([rng.randint(-9, 9) for _ in range(rng.randint(1, 30))], rng.randint(1, 12))
        note(out, dict(kind='reshaped', x=x), lambda: try_2d(x))
    out['samples'].append(dict(heat_map=hs[0], figure=qs[0]))
    return out


def note(out, item, act):
    try:
        bad = act()
    except Exception as e:
        bad = 'no figure: %r' % e
    out['traces'] += 1
    if bad:
        out['dis'].append(dict(item, what='%s: %s' % (item['kind'], bad)))


def fig_replay(P, item):
    if item['kind'] == 'heat':
        e, _ = ask('HeatMap', [case_of_heat(item['h'])])
        act = lambda: try_heat(item['h'], e[0])
    elif item['kind'] == 'figure':
        q = item['q']
        e, _ = ask('Figures', [dict(mode=q['mode'], tab=q['tab'], eps=EPS)])
        act = lambda: try_figure(q, e[0])
    else:
        act = lambda: try_2d(item['x'])
    try:
        bad = act()
    except Exception as e:
        bad = repr(e)
    print(bad)
    return bool(bad)


# ---------------------------------------------------------------- results of calculations
def network_case(D):
    return [dict(label=c['label'], flows=[{'label': f['label'], 'bus': D['buses'][f['bus']]['label'], 'in': tabjobs.role(c, i)} for i, f in enumerate(c['flows'])])
            for c in D['comps']]


def same_network(net, e):
    nodes = sorted(({'box': 'Component', 'circle': 'Bus'}.get(x['shape']), x['id']) for x in net.nodes)
    if nodes != sorted(tuple(x) for x in e['nodes']):
        return 'the nodes are %s' % nodes
    if any(x['label'] != x['id'] for x in net.nodes):
        return 'a node is labelled otherwise'
    arrows = sorted((x['from'], x['to'], x['label']) for x in net.edges)
    if arrows != sorted(tuple(x) for x in e['arrows']):
        return 'the arrows are %s instead of %s' % (arrows, sorted(tuple(x) for x in e['arrows']))
    return None


FAMS = [dict(T=(2, 7), nconv=(0, 2), stor=0.6, onoff=0.2, inv=0.2, pen=0.6, tsp=0.6, uneq=0.5, srcsink=0.2, slackfree=0.3),
        dict(T=(3, 8), nconv=(1, 2), stor=0.9, trans=0.3, pen=0.5, tsp=0.6, uneq=0.2, slackfree=0.3, extra=1)]


def wishes(D, rng):
    labels = [c['label'] for c in D['comps']] + sorted({D['buses'][f['bus']]['label'] for c in D['comps'] for f in c['flows']})
    flows = ['%s__%s' % (c['label'], f['label']) for c in D['comps'] for f in c['flows']]
    out = []
    for _ in range(6):
        mode = rng.choice(['bar', 'line', 'area', 'area', 'heatmap'])
        out.append(dict(label=rng.choice(labels + flows[:2]), mode=mode, engine='plotly' if mode == 'area' else rng.choice(['plotly', 'matplotlib']),
                        invert=rng.random() < 0.5, hm=rng.choice([p for p in PAIRS if p[1] != 'min']), store=0, save=rng.random() < 0.1))
    for c in D['comps']:
        if c['cls'] == 'Storage':
            out.append(dict(label=c['label'], mode=rng.choice(['bar', 'line', 'area']), engine='plotly', invert=rng.random() < 0.5, hm=None, store=1, save=rng.random() < 0.1))
    return out


def loaded(D):
    """results of a calculation of the whole system, saved and loaded again, and the drawings of the network"""
    tmp = tempfile.mkdtemp(prefix='c26')
    B = build.build(D)
    before = B.fs.visualize_network(path=False, show=False)
    calc = jobs.fx().FullCalculation('c', B.fs)
    calc.do_modeling()
    try:
        calc.solve(jobs.solver(), save_results=tmp)
    except Exception as e:
        shutil.rmtree(tmp)
        raise jobs.Infeasible(repr(e))
    return tmp, before


def grid(df):
    """the first column of a table, in thousandths"""
    return [int(round(x * 1000)) for x in df.iloc[:, 0]]


def prepare(r, ws):
    """tables asked for, and the cases for the specification"""
    tabs, hcases, fcases, where = [], [], [], []
    for w in ws:
        df = r.to_dataframe(w['label'], input_factor=1 if w['invert'] else -1, output_factor=-1 if w['invert'] else 1)
        tabs.append(df)
        if df.empty:
            where.append(None)
        elif w['mode'] == 'heatmap':
            if max(abs(x) for x in grid(df)) > 10 ** 7:
                where.append(None)
                continue
            where.append(len(hcases))
            hcases.append(heat_case([x.to_pydatetime() for x in df.index], grid(df), w['hm'][0], w['hm'][1], 'ffill'))
        else:
            where.append(len(fcases))
            fcases.append(dict(mode=w['mode'], tab=[[int(round(x * SCALE)) for x in df[c]] for c in df.columns], eps=EPS))
    return tabs, hcases, fcases, where


def fragile(f):
    """values which are too large or too close to where the sign is told"""
    return any(abs(x) > 2 * 10 ** 8 or abs(abs(x) - EPS) < 3 for c in f['tab'] for x in c)


def one_wish(r, w, df, e, tmp):
    n = set(os.listdir(tmp))
    kw = dict(show=False, save=bool(w['save']), invert=w['invert'])
    if w['store']:
        fig = r.plot_storage(w['label'], mode=w['mode'], **kw)
        last = fig.data[-1]
        if last.name != 'Charge State' or not close(last.y, r.component_results[w['label']].variables['charge_state']) or not close(moments(last.x), moments(r.time_with_end)):
            return 'the content of the storage is not shown'
        fig.data = fig.data[:-1]
    elif df.empty and (w['mode'] == 'heatmap' or w['engine'] == 'matplotlib'):
        return None
    elif w['mode'] == 'heatmap':
        fig = r.plot_operation(w['label'], 'heatmap', heatmap_periods=w['hm'][0], heatmap_steps_per_period=w['hm'][1], engine=w['engine'], **kw)
    else:
        fig = r.plot_operation(w['label'], w['mode'], engine=w['engine'], **kw)
    if df.empty:
        return 'something is shown of nothing' if len(fig.data) else None
    if bool(set(os.listdir(tmp)) - n) != bool(w['save']):
        return 'the figure is %ssaved' % ('not ' if w['save'] else '')
    if e is None:
        return None
    if w['mode'] == 'heatmap':
        if w['engine'] == 'plotly':
            h = fig.data[0]
            shown = pd.DataFrame(np.array(h.z, dtype=float), index=list(h.y), columns=list(h.x))
        else:
            ms = [c for c in fig[1].collections if c.get_array() is not None]
            ax = fig[1]
            cols, rows = [t.get_text() for t in ax.get_xticklabels()], [t.get_text() for t in ax.get_yticklabels()]
            shown = pd.DataFrame(np.ma.filled(np.ma.asarray(ms[0].get_array(), dtype=float), np.nan).reshape(len(rows), len(cols)), index=rows, columns=cols)
        plt.close('all')
        return same_heat(shown, e, scale=1000.0, tol=1e-3)
    names = [str(c) for c in df.columns]
    if w['engine'] == 'plotly':
        return same_plotly(fig, names, df.index, e, w['mode'])
    bad = same_matplotlib(fig, names, df.index, e, w['mode'])
    plt.close('all')
    return bad


@lifejobs.quietly
def drawn(D, ws):
    """[(wish, what is wrong or None)], stats"""
    from flixOpt.results import CalculationResults
    tmp, before = loaded(D)
    try:
        r = CalculationResults('c', tmp)
        tabs, hc, fc, where = prepare(r, ws)
        st = dict(states=0, transitions=0)
        ans = {}
        en, s = ask('Network', [network_case(D)])
        for k in st:
            st[k] += s[k]
        for mod, cases in (('HeatMap', hc), ('Figures', fc)):
            if cases:
                ans[mod], s = ask(mod, cases)
                for k in st:
                    st[k] += s[k]
        out = []
        for w, df, i in zip(ws, tabs, where):
            e = None
            if i is not None:
                e = ans['HeatMap'][i] if w['mode'] == 'heatmap' else None if fragile(fc[i]) else ans['Figures'][i]
            try:
                bad = one_wish(r, w, df, e, tmp)
            except Exception as ex:
                bad = 'no figure: %r' % ex
            out.append((w, bad))
        for what, net in (('the network of the system', before), ('the network of the results', r.visualize_network(path=False, show=False))):
            bad = same_network(net, en[0])
            out.append((dict(network=1), bad and '%s: %s' % (what, bad)))
        return out, st
    finally:
        shutil.rmtree(tmp)


def drawn_job(P, seed, n):
    import families
    rng = random.Random(seed)
    out = jobs.new_out()
    for _ in range(n):
        D = gen.Gen(rng, **families.F(**rng.choice(FAMS))).system()
        ws = wishes(D, rng)
        item = dict(kind='drawn', D=D, ws=ws)
        try:
            res, st = drawn(D, ws)
        except jobs.Infeasible:
            jobs.add(out, 'infeasible')
            continue
        except tlc.TLCError:
            raise
        except Exception as e:
            out['dis'].append(dict(item, what='no results or no figures: %r' % e))
            continue
        out['states'] += st['states']
        out['transitions'] += st['transitions']
        out['traces'] += len(res)
        jobs.add(out, 'drawn', len(res))
        for w, bad in res:
            if bad:
                out['dis'].append(dict(item, what='%s: %s' % ({k: v for k, v in w.items()}, bad)))
    return out


def drawn_replay(P, item):
    try:
        res, _ = drawn(item['D'], item['ws'])
    except jobs.Infeasible:
        return False
    except Exception as e:
        print(repr(e))
        return True
    for w, bad in res:
        if bad:
            print(w, bad)
    return any(bad for _, bad in res)


JOBS = dict(fig=fig_job, drawn=drawn_job)
REPLAY = dict(heat=fig_replay, figure=fig_replay, reshaped=fig_replay, drawn=drawn_replay)
