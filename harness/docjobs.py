"""C27: the description of a system (infos, saved data, compact form) says what was stated (spec/Definition.tla)."""
import copy
import functools
import inspect
import json
import os
import random
import tempfile

import numpy as np

import build
import gen
import jobs
import lifejobs
import tabjobs


# ---------------------------------------------------------------- what was stated
class Stated:
    Interface = ()
    """records the arguments every object is made with"""

    def __init__(self):
        fx = jobs.fx()
        from flixOpt.structure import Interface
        self.Interface = Interface
        self.of = {}        # id -> (object, {argument: (value, default)})
        self.hooked, self.given = [], []

        def walk(c):
            for s in c.__subclasses__():
                yield s
                yield from walk(s)
        for c in set(walk(Interface)):
            if '__init__' in vars(c):
                self.hook(c)

    def hook(self, c):
        orig = c.__init__
        me = self

        @functools.wraps(orig)
        def init(obj, *a, **k):
            if type(obj) is c and id(obj) not in me.of:
                b = inspect.signature(orig).bind(obj, *a, **k)
                par = inspect.signature(orig).parameters
                me.of[id(obj)] = (obj, {n: (me.keep(v), par[n].default) for n, v in list(b.arguments.items())[1:]})
            return orig(obj, *a, **k)
        self.hooked.append((c, orig))
        c.__init__ = init

    def built(self, B):
        self.shares = {id(e): {n: self.keep(getattr(e, n)) for n in ('specific_share_to_other_effects_operation', 'specific_share_to_other_effects_invest')} for e in B.effects}

    def close(self):
        for c, o in self.hooked:
            c.__init__ = o

    def keep(self, v):
        """a copy of containers; the objects of flixOpt themselves"""
        if isinstance(v, self.Interface):
            return v
        if isinstance(v, dict):
            return {k: self.keep(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.keep(x) for x in v]
        if isinstance(v, np.ndarray):
            self.given.append((v, v.copy()))
            return self.given[-1][1]
        if type(v).__name__ == 'TimeSeriesData' and isinstance(v.data, np.ndarray):
            self.given.append((v.data, v.data.copy()))
        return v


def number(x):
    x = float(x)
    w = int(np.floor(x))
    return [w, int(round((x - w) * 1000000))]


def text(s):
    return dict(s=str(s), n=[], d=[])


def numbers(xs):
    return dict(s='', n=[number(x) for x in xs], d=[])


def is_number(v):
    return isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, (bool, np.bool_))


PER_EFFECT = ('effects_per_', 'fix_effects', 'specific_effects', 'divest_effects', 'specific_share')
NOT_IN_TIME = ('previous_flow_rate', 'meta_data')


BIG, EFFECTIVE = 10000000, object()


class Reader:
    """flattens arguments (as stated or as described) into pairs of a name and a value"""

    def __init__(self, stated, std, idx, T, active=False):
        self.stated, self.std, self.idx, self.T = stated, std, idx, T
        self.active = active        # the values read are those of the active steps already (limits of contents: not judged)

    def key(self, k):
        if k is None or k in ('None', 'null'):
            return self.std
        return k.label if hasattr(k, 'label') else str(k)

    def cut(self, path, a):
        if self.idx is None or any(p in NOT_IN_TIME for p in path) or a.ndim != 1:
            return a
        if len(a) == self.T and not self.active:
            return a[self.idx]
        if len(a) == self.T + 1:
            return a[self.idx]     # limits of contents: those of the time steps
        return a

    def value(self, path, v):
        """-> [(path, value)]"""
        if path and path[-1].startswith(PER_EFFECT) and (is_number(v) or isinstance(v, np.ndarray) or type(v).__name__ == 'TimeSeriesData'
                                                         or isinstance(v, list) and len(v) and all(is_number(x) for x in v)):
            path = path + (self.std,)     # a value without an effect: the standard effect
        if isinstance(v, self.stated.Interface):
            if hasattr(v, 'label'):
                return [(path, text(v.label))]
            args = dict(self.stated.of[id(v)][1])
            if type(v).__name__ == 'InvestParameters':
                fixed = args.get('fixed_size', (None, None))[0]
                for n, dflt in (('minimum_size', 0), ('maximum_size', BIG)):
                    if fixed is not None or args.get(n, (None, None))[0] is None:
                        args[n] = (EFFECTIVE, dflt if fixed is None else fixed)
            return [(path + ('class',), text(type(v).__name__))] + [x for n, (w, d) in args.items() for x in self.argument(path + (n,), w, d)]
        if type(v).__name__ == 'TimeSeriesData':
            v = v.data
        if len(path) == 3 and path[0] == 'segmented_conversion_factors' and not isinstance(v, dict):
            return [x for k, w in enumerate(v) for x in self.value(path + (str(k),), w)]     # a pair
        if isinstance(v, dict):
            if 'class' in v:       # a described object
                if 'label' in v:
                    return [(path, text(v['label']))]
                return [(path + ('class',), text(v['class'].split(':')[0]))] + [x for n, w in v.items() if n != 'class' for x in self.value(path + (n,), w)]
            return [x for k, w in v.items() for x in self.value(path + (self.key(k),), w)]
        if isinstance(v, np.ndarray):
            return [(path, numbers(self.cut(path, v)))]
        if isinstance(v, (list, tuple)):
            if len(v) and all(is_number(x) for x in v):
                return [(path, numbers(self.cut(path, np.array(v, dtype=float)) if isinstance(v, list) else v))]
            return [x for k, w in enumerate(v) for x in self.value(path + (str(k),), w)]
        if isinstance(v, str) and v.startswith('Array ('):
            t = dict(x.strip().split('=') for x in v[7:-1].split(','))
            d = {k: int(round(float(t[k]) * 100)) for k in ('min', 'max', 'mean', 'median', 'std')}
            d['center'] = 0 if t['center'] == 'nan' else int(round(float(t['center']) * 100))
            return [(path, dict(s='', n=[], d=[dict(d, len=int(t['len']))]))]
        if is_number(v):
            return [(path, numbers([v]))]
        return [(path, text(v))]

    def argument(self, path, v, default):
        """values of an argument as stated; those which are the default need not be said"""
        if v is EFFECTIVE:
            return [(path, numbers([default]), 1)]
        if path == ('size',) and v is None:
            return [(path, numbers([BIG]), 1)]
        if v is None and default is None:
            return [(path, text(None), 1)]
        same = default is not inspect.Parameter.empty and not isinstance(v, self.stated.Interface) and (v is default or (is_number(v) and is_number(default) and v == default)
               or (isinstance(v, bool) and v == default) or (isinstance(v, str) and v == default) or (isinstance(v, np.ndarray) and is_number(default) and bool(np.all(v == default))))
        return [x if len(x) == 3 else x + (int(same),) for x in self.value(path, v)]


FLAGS = ('prevent_simultaneous_flows',)


def stated_elements(B, R, D):
    """[name, class, [(path, value, default)]] of every element of the system"""
    out = []

    def one(name, o, extra=()):
        args = []
        for n, (v, d) in R.stated.of[id(o)][1].items():
            if n in ('inputs', 'outputs'):
                continue
            if n in FLAGS and type(o).__name__ == 'SourceAndSink':
                # described by the flows which exclude each other
                v, d = ([o.sink, o.source] if v else []), None
            # efficiencies given to the ready-made converters are kept as they were stated (the factors made of them are not described)
            whole = type(o).__module__.endswith('linear_converters') and n != 'on_off_parameters'
            args += (Reader(R.stated, R.std, None, R.T) if whole else R).argument((n,), v, d)
        par = inspect.signature(type(o).__init__).parameters
        for n, p in list(par.items())[1:]:
            if not any(a[0][0] == n for a in args) and n not in ('inputs', 'outputs', 'label'):
                args += [x[:2] + (1,) for x in R.argument((n,), None if p.default is inspect.Parameter.empty else p.default, p.default)] if p.default is not inspect.Parameter.empty else []
        out.append([name, type(o).__name__, args + list(extra)])
    for e in B.effects:
        # the shares are stated after all effects exist
        for k, v in R.stated.shares[id(e)].items():
            R.stated.of[id(e)][1][k] = (v, None)
        one('Effects/' + e.label, e)
    for b in {id(f.bus): f.bus for f in B.flows}.values():
        one('Buses/' + b.label, b)
    n = 0
    for c, comp in zip(B.comps, D['comps']):
        one('Components/' + c.label, c)
        for k in range(len(comp['flows'])):
            f = B.flows[n]
            n += 1
            into = bool(tabjobs.role(comp, k))
            one('Components/%s/%s/%s' % (c.label, 'inputs' if into else 'outputs', f.label), f, [(('is_input_in_component',), text(into), 0)])
    return out


def described_elements(doc, R):
    out = []

    def one(name, d):
        args = [x for n, v in d.items() if n not in ('class', 'inputs', 'outputs') for x in R.value((n,), v)]
        out.append([name, d['class'].split(':')[0], args])
    for kind in ('Components', 'Buses', 'Effects'):
        for label, d in doc[kind].items():
            one('%s/%s' % (kind, label), d)
            for side in ('inputs', 'outputs') if kind == 'Components' else ():
                for f in d[side]:
                    one('%s/%s/%s/%s' % (kind, label, side, f['label']), f)
    return out


# ---------------------------------------------------------------- descriptions of a system
FAMS = lifejobs.FAMS + [dict(T=(2, 6), nconv=(1, 3), stor=0.6, storinv=0.4, trans=0.5, srcsink=0.4, excl=0.3, onoff=0.5, compon=0.4, inv=0.5, invseg=0.4, pw=0.4, hist=0.4, starts=0.4, oneff=0.5,
                             tsp=0.6, uneq=0.4, pen=0.6, share=0.5, neff=(1, 3), slackfree=0.3, effp=0.9)]


def plain(e):
    return dict(el=e[0], cls=e[1], args=[dict(a='/'.join(x[0]), v=x[1], **({'def': x[2], 'eff': 0} if len(x) == 3 else {})) for x in e[2]])


def case(B, S, D, idx, doc, compact):
    R = Reader(S, D['effs'][D['std']]['label'], idx, D['T'])
    st, de = stated_elements(B, R, D), described_elements(doc, Reader(S, R.std, idx, R.T, True))
    two = ['Components/%s/inputs/%s' % (c['label'], c['flows'][2]['label']) for c in D['comps'] if c['cls'] == 'Transmission' and c['two'] and isinstance(c['flows'][0]['size'], dict) and c['flows'][0]['size']['kind'] == 'inv']
    for e in st + de:
        if e[0] in two:      # gets the size of the first direction when modelled
            e[2] = [x for x in e[2] if x[0][0] != 'size']
    return dict(stated=[plain(e) for e in st], doc=[plain(e) for e in de], tol=5001 if compact else 1, src=0)


def printed(s):
    import ast
    return ast.literal_eval(s.replace('│', ' ').replace(': nan', ': None'))


@lifejobs.quietly
def descriptions(D, seed):
    """[(what, case)], None or what is wrong besides"""
    import yaml
    rng = random.Random(seed)
    fx = jobs.fx()
    S = Stated()
    try:
        B = build.build(D)
        S.built(B)
    finally:
        S.close()
    out = []

    def look(what, doc, compact=False, idx=None):
        out.append((what, case(B, S, D, idx, doc, compact)))

    def all_ways(when, idx=None):
        look(when + 'infos of arrays', B.fs.infos(), idx=idx)
        look(when + 'infos of lists', B.fs.infos(use_numpy=False, use_element_label=rng.random() < 0.5), idx=idx)
        w = rng.randrange(3)
        if w == 0:
            B.fs.to_json('d.json')
            look(when + 'to_json', json.load(open('d.json')), True, idx)
        elif w == 1:
            look(when + 'printed', printed(str(B.fs)), True, idx)
        else:
            json.dump(B.fs.infos(use_numpy=False), open('d.json', 'w'))
            look(when + 'lists as json', json.load(open('d.json')), False, idx)
    all_ways('')
    idx = None
    if D['T'] > 2 and rng.random() < 0.7:
        a = rng.randint(0, D['T'] - 2)
        idx = list(range(a, rng.randint(a + 2, D['T']))) if rng.random() < 0.6 else sorted(rng.sample(range(D['T']), rng.randint(2, D['T'])))
    calc = fx.FullCalculation('c', B.fs, time_indices=idx)
    calc.do_modeling()
    idx = list(range(D['T'])) if idx is None else idx
    all_ways('modelled: ', idx)
    try:
        calc.solve(jobs.solver(), save_results='out')
        ok = True
    except Exception:
        ok = False
    if ok:
        look('saved data', json.load(open('out/c_data.json')), idx=idx)
        look('saved infos', yaml.safe_load(open('out/c_infos.yaml', encoding='utf-8'))['FlowSystem'], True, idx)
        for e in rng.sample(B.comps + B.effects, 2):
            e.to_json('e.json')
            str(e)
    bad = None
    if any(not np.array_equal(a, b) for a, b in S.given):
        bad = 'data of the user was altered'
    return out, bad


def stats_case(rng):
    n = rng.randint(51, 60)
    v = [rng.randint(-5, 5) for _ in range(n)] if rng.random() < 0.6 else [rng.choice([0, 0, 3]) for _ in range(n)]
    return v


def stats_doc(v):
    from flixOpt.structure import get_compact_representation
    R = Reader(None, '', None, 0)
    R.stated = Stated
    doc = get_compact_representation({'a': {'b': np.array(v, dtype=float)}, 'c': np.array(v[:50], dtype=float) / 8})
    st = [dict(a='a/b', v=numbers(v), **{'def': 0, 'eff': 0}), dict(a='c', v=numbers([x / 8 for x in v[:50]]), **{'def': 0, 'eff': 0})]
    return dict(stated=[dict(el='x', cls='', args=st)], doc=[dict(el='x', cls='', args=[dict(a='/'.join(p), v=w) for p, w in R.value((), doc)])], tol=5001, src=0)


def judge(cs):
    import figjobs
    return figjobs.ask('Definition', cs)


def said(r):
    return '; '.join('%s %s: %s' % (w['el'], w['a'], w['why']) for w in r['wrong'][:6])


def doc_job(P, seed, fam, n):
    rng = random.Random(seed)
    out = jobs.new_out()
    for i in range(n):
        D = gen.Gen(rng, **FAMS[fam]).system()
        D['meta'] = rng.random() < 0.4
        s = rng.randrange(10 ** 6)
        ds, bad = descriptions(D, s)
        vs = [stats_case(rng) for _ in range(3)]
        rs, st = judge([c for _, c in ds] + [stats_doc(v) for v in vs])
        for k in ('states', 'transitions'):
            out[k] += st[k]
        out['traces'] += len(rs)
        jobs.add(out, 'descriptions', len(ds))
        jobs.add(out, 'arguments', sum(len(e['args']) for _, c in ds for e in c['stated']))
        jobs.add(out, 'saved', sum(w.startswith('saved') for w, _ in ds) // 2)
        item = dict(kind='doc', D=D, seed=s)
        if bad:
            out['dis'].append(dict(item, what=bad))
        for (w, _), r in zip(ds, rs):
            if r['wrong']:
                out['dis'].append(dict(item, what='%s: %s' % (w, said(r))))
                break
        for v, r in zip(vs, rs[len(ds):]):
            if r['wrong']:
                out['dis'].append(dict(kind='docstat', v=v, what='description of a series: ' + said(r)))
        if i == 0:
            out['samples'].append(dict(D=D))
    return out


def doc_replay(P, item):
    if item['kind'] == 'docstat':
        rs, _ = judge([stats_doc(item['v'])])
        return bool(rs[0]['wrong'])
    ds, bad = descriptions(item['D'], item['seed'])
    rs, _ = judge([c for _, c in ds])
    for (w, _), r in zip(ds, rs):
        if r['wrong']:
            print(w, said(r))
            bad = True
    return bool(bad)


JOBS = dict(doc=doc_job)
REPLAY = dict(doc=doc_replay, docstat=doc_replay)
