"""C23: histories of specs/Kfunc.tla replayed into kfunc classes, functions
and the package shortcuts."""
import hashlib
import importlib.util
import inspect
import json
import os
import sys

from .core import need, import_sdepy, Mismatch, REPO

sdepy = import_sdepy()
import numpy as np  # noqa
import sdepy.infrastructure as infra  # noqa
import sdepy.integration as integ  # noqa
import sdepy.analytical as ana  # noqa
from sdepy import kfunc, iskfunc  # noqa

DEFAULT = dict(a=1, b=2, x=5, y=10)


# ---- toy targets ---------------------------------------------------------

def plain_class(mand, free):
    if mand:
        class T:
            def __init__(self, *, a, b=2):
                self.a, self.b, self.last = a, b, {}

            def __call__(self, x, y=10):
                self.last = dict(x=x, y=y)
                return dict(a=self.a, b=self.b, x=x, y=y)
    elif free:
        class T:
            def __init__(self, *, a=1, b=2):
                self.a, self.b, self.last = a, b, {}

            def __call__(self, x=5, y=10):
                self.last = dict(x=x, y=y)
                return dict(a=self.a, b=self.b, x=x, y=y)
    else:
        class T:
            def __init__(self, *, a=1, b=2):
                self.a, self.b, self.last = a, b, {}

            def __call__(self, x, y=10):
                self.last = dict(x=x, y=y)
                return dict(a=self.a, b=self.b, x=x, y=y)
    return T


def subclass_kfunc(mand, free):
    """A kfunc class derived from a kfunc class."""
    B = kfunc(plain_class(mand, free))
    if mand:
        class T(B):
            def __init__(self, *, a, b=2):
                super().__init__(a=a, b=b)

            def __call__(self, x, y=10):
                return super().__call__(x, y)
    elif free:
        class T(B):
            def __call__(self, x=5, y=10):
                return super().__call__(x, y)
    else:
        class T(B):
            def __init__(self, *, a=1, b=2):
                super().__init__(b=b, a=a)
    return kfunc(T)


def varargs_kfunc(mand, free):
    """Parameters taken by **args: they do not appear in the signature."""
    P = plain_class(mand, free)

    class T(P):
        def __init__(self, *, b=2, **args):
            super().__init__(b=b, **args)
    return kfunc(T)


def toy_targets(kind):
    mand, free = kind == 'mand', kind == 'free'
    if kind in ('class', 'mand', 'free'):
        sig = {'b': 2} if mand else {'a': 1, 'b': 2}
        return [(kfunc(plain_class(mand, free)), sig),
                (subclass_kfunc(mand, free), sig),
                (varargs_kfunc(mand, free), {'b': 2})]
    if kind == 'func':
        @kfunc(nvar=2)
        def f(x, y=10, *, a=1, b=2):
            return dict(a=a, b=b, x=x, y=y)

        @kfunc(nvar=1)
        def g(x, *, a=1, b=2):
            return dict(a=a, b=b, x=x)
        return [(f, {'a': 1, 'b': 2}), (g, {'a': 1, 'b': 2})]

    @kfunc(nvar=2)
    def f(x, y, *, a, b=2):
        return dict(a=a, b=b, x=x, y=y)
    return [(f, {'b': 2})]


def pass_vars(v, style, names=('x', 'y')):
    """Variables as positional or keyword arguments."""
    if style == 1 and set(v) == {'x', 'y'}:
        return (v['x'], v['y']), {}
    if style >= 1 and 'x' in v:
        return (v['x'],), {names[1]: v['y']} if 'y' in v else {}
    return (), {n: v[k] for k, n in zip(('x', 'y'), names) if k in v}


def is_error(fn, what):
    try:
        r = fn()
    except TypeError:
        return
    raise Mismatch('{}: no TypeError raised, result {!r}'.format(what, r))


# the values of the specification are names of any value
NAMED = ({}, {}, {3: None, 4: 0}, {3: False, 4: None, 7: 0, 8: None, 9: ''},
         {3: np.array([1., 2.]), 4: np.array([]), 7: np.array([3, 4]),
          8: (), 9: np.nan},
         {3: len, 4: type, 7: str, 8: KeyError, 9: kfunc})


def named(d, style):
    m = NAMED[style % len(NAMED)]
    return {k: m.get(v, v) if isinstance(v, int) else v
            for k, v in d.items()}


def replay_toy(rec, F, sig, style):
    n = int(hashlib.sha1(json.dumps(rec, sort_keys=True).encode()
                         ).hexdigest(), 16)
    rec = dict(
        rec, objs=[dict(o, par=named(o['par'], n), last=named(o['last'], n))
                   for o in rec['objs']],
        log=[dict(e, **{k: named(e[k], n) for k in ('par', 'vars', 'val')})
             for e in rec['log']])
    objs, pars, last = [], [], []
    sees_y = 'y' in F._kfunc_call_args if hasattr(F, '_kfunc_call_args') \
        else True
    if not sees_y and any('y' in e['vars'] for e in rec['log']):
        return
    is_cls = rec['kind'] in ('class', 'mand', 'free')

    def report():
        for i, o in enumerate(objs):
            want = dict(sig)
            want.update(pars[i])
            if 'a' not in want and is_cls and 'a' in sig:
                want['a'] = 1
            got = o.params
            # not specified for a parameter with no value at all
            got = {k: z for k, z in got.items()
                   if z is not inspect.Parameter.empty or k in want}
            need(dict(got) == want, 'params of object', i, 'are', got,
                 'instead of', want)
            got = o.params
            before = dict(got)
            got['a'] = 'changed'
            got['new'] = 'new'
            need(dict(o.params) == before, 'params changed from outside')
            need(iskfunc(o), 'iskfunc of object', i, 'is False')
            if is_cls:
                need(o.last == last[i], 'object', i, 'was last evaluated on',
                     o.last, 'instead of', last[i])
                need((o.a, o.b) == (want.get('a', 1), want['b']),
                     'object', i, 'was created with', (o.a, o.b))

    need(iskfunc(F), 'iskfunc is False')
    for n, e in enumerate(rec['log']):
        what = 'operation {} {}'.format(n, e)
        target = F if e['of'] == 0 else objs[e['of'] - 1]
        pos, kw = pass_vars(e['vars'], (style + n) % 3)
        par = dict(e['par'])
        # mixed order of parameters and variables
        kw = {**par, **kw} if (style + n) % 2 else {**kw, **par}

        def call():
            return target(*pos, **kw)
        if e['what'] == 'error':
            is_error(call, what)
        elif e['what'] == 'value':
            r = call()
            want = dict(e['val'])
            if not sees_y:
                want.pop('y', None)
            need(r == want, what, 'returned', r, 'instead of', want)
            if e['of'] and not par:
                last[e['of'] - 1] = {k: want[k] for k in ('x', 'y')
                                     if k in want}
        else:
            r = call()
            need(isinstance(r, F), what, 'returned', type(r))
            need(all(r is not o for o in objs), what,
                 'returned an existing object')
            objs.append(r)
            stored = dict(pars[e['of'] - 1]) if e['of'] else {}
            stored.update(par)
            pars.append(stored)
            last.append({})
        need(par == e['par'], 'parameters passed were changed')
        report()
    for i, o in enumerate(rec['objs']):
        need(pars[i] == o['par'], 'adapter out of step')
        if is_cls:
            need(objs[i].last == o['last'], 'last evaluation of object', i)
    # final evaluation of all objects
    for i, o in enumerate(objs):
        if rec['kind'] in ('mand', 'funcmand') and 'a' not in pars[i]:
            continue
        r = o(1, 2) if sees_y else o(1)
        want = {**{k: DEFAULT[k] for k in 'ab'}, **pars[i], 'x': 1, 'y': 2}
        if not sees_y:
            del want['y']
        need(r == want, 'object', i, 'returned', r, 'instead of', want)


# ---- package targets ------------------------------------------------------

FULL = dict(
    dw='wiener_source', dn='poisson_source', dj='cpoisson_source',
    odd_dw='odd_wiener_source', even_dn='even_poisson_source',
    even_dj='even_cpoisson_source', true_dw='true_wiener_source',
    true_dn='true_poisson_source', true_dj='true_cpoisson_source',
    wiener='wiener_process', lognorm='lognorm_process',
    oruh='ornstein_uhlenbeck_process', hwff='hull_white_process',
    hw1f='hull_white_1factor_process', cir='cox_ingersoll_ross_process',
    heston_xy='full_heston_process', heston='heston_process',
    jumpdiff='jumpdiff_process', mjd='merton_jumpdiff_process',
    kou='kou_jumpdiff_process')
SOURCES = [k for k, v in FULL.items() if v.endswith('source')]
PROCS = [k for k, v in FULL.items() if v.endswith('process')]
FUNCS = [n for n in ana.__all__ if inspect.isfunction(getattr(ana, n))] \
    if hasattr(ana, '__all__') else \
    [n for n in dir(ana) if inspect.isfunction(getattr(ana, n)) and
     n[0] != '_' and getattr(ana, n).__module__ == 'sdepy.analytical']
# numerical inversion: exercised less (slow)
VALUES = dict(
    paths=(4, 6), vshape=((2,), ()), dtype=(np.float32, np.float64),
    steps=(3, 8), i0=(1, 0), x0=(0.5, 2.), mu=(0.25, 0), sigma=(0.25, 0.5),
    theta=(0.25, 0.5), k=(0.5, 2.), xi=(0.25, 0.5), y0=(0.25, 0.5),
    lam=(1.5, 2.5), t0=(0.25, 0), z0=(1, 0), rho=(0.25, 0.5),
    a=(0.25, 0.125), b=(0.125, 0.25), pa=(0.25, 0.75), r=(0.5, 0.25),
    q=(0.5, 0.125), rtol=(1e-9, 1e-6), method=('euler', 'euler'),
    getinfo=(True, False))
SRC_PAIRS = [('paths', 'vshape'), ('vshape', 'paths'), ('dtype', 'paths')]
PAIRS = {
    'dw': SRC_PAIRS, 'odd_dw': SRC_PAIRS,
    'dn': [('lam', 'paths'), ('paths', 'vshape')],
    'even_dn': [('lam', 'paths'), ('vshape', 'paths')],
    'dj': [('lam', 'paths'), ('paths', 'vshape')],
    'even_dj': [('lam', 'paths'), ('vshape', 'paths')],
    'true_dw': [('z0', 'paths'), ('t0', 'vshape'), ('rtol', 'paths')],
    'true_dn': [('z0', 'lam'), ('t0', 'paths')],
    'true_dj': [('lam', 'paths'), ('t0', 'vshape')],
    'wiener': [('mu', 'paths'), ('x0', 'vshape'), ('steps', 'sigma')],
    'lognorm': [('mu', 'paths'), ('x0', 'i0')],
    'oruh': [('k', 'paths'), ('theta', 'x0')],
    'hwff': [('k', 'paths'), ('sigma', 'x0')],
    'hw1f': [('k', 'sigma'), ('theta', 'getinfo')],
    'cir': [('xi', 'paths'), ('theta', 'k')],
    'heston_xy': [('y0', 'paths'), ('mu', 'rho')],
    'heston': [('x0', 'paths'), ('xi', 'theta')],
    'jumpdiff': [('lam', 'paths'), ('sigma', 'x0')],
    'mjd': [('a', 'b'), ('lam', 'mu')],
    'kou': [('pa', 'a'), ('b', 'paths')],
}
TVALS = {7: 0.75, 8: 1.25, 9: 0.5}
LINES = {7: [0., 0.25, 1.], 8: [0., 0.5, 0.75, 1.5]}


class Gen:
    """Shared generator, set back before every evaluation."""
    def __init__(self):
        self.gen = np.random.Generator(np.random.PCG64(12345))
        self.state = self.gen.bit_generator.state

    def reset(self):
        self.gen.bit_generator.state = self.state


def same(a, b, what):
    if isinstance(a, tuple) and isinstance(b, tuple):
        need(len(a) == len(b), what, 'number of results', len(a))
        for u, v in zip(a, b):
            same(u, v, what)
        return
    need(type(a) is type(b), what, 'type', type(a), 'instead of', type(b))
    x, y = np.asarray(a), np.asarray(b)
    need(x.shape == y.shape and x.dtype == y.dtype, what, 'got',
         x.shape, x.dtype, 'expected', y.shape, y.dtype)
    need(np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'), what, 'got',
         x.tolist(), 'expected', y.tolist())
    if hasattr(b, 't'):
        need(np.array_equal(a.t, b.t), what, 'timeline', a.t)


def equal_param(a, b):
    if a is b:
        return True
    try:
        return type(a) is type(b) and np.array_equal(a, b)
    except Exception:
        return False


_SHORTCUTS = {}


def shortcuts(mode):
    """The shortcuts module, as deployed in the given mode."""
    if mode == 'shortcuts':
        return sdepy
    if mode not in _SHORTCUTS:
        from sdepy import _config
        path = os.path.join(os.path.dirname(sdepy.__file__), 'shortcuts.py')
        name = 'sdepy._shortcuts_' + str(mode)
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        old, _config.KFUNC = _config.KFUNC, None if mode == 'none' else mode
        try:
            spec.loader.exec_module(mod)
        finally:
            _config.KFUNC = old
        _SHORTCUTS[mode] = mod
    return _SHORTCUTS[mode]


def replay_package(rec, name, mode, style):
    """A history on shortcut name: same results as the full named class."""
    F = getattr(shortcuts(mode), name)
    two = rec['kind'] == 'two'
    func = name in FUNCS
    if func:
        ref = getattr(ana, name)
        sig = inspect.signature(ref).parameters
        names = [n for n in sig if sig[n].kind is not sig[n].KEYWORD_ONLY]
        pn = [n for n in sig if n not in names]
        pair = (pn[style % len(pn)], pn[(style//2 + style + 1) % len(pn)])
        if pair[0] == pair[1]:
            pair = (pn[0], pn[-1])
    else:
        full = FULL.get(name, name)
        ref = getattr(integ, full, None) or getattr(infra, full)
        names = ['t', 'dt'] if two else ['timeline']
        short = name if name in PAIRS else \
            [s for s in FULL if FULL[s] == name][0]
        pp = PAIRS[short]
        pair = pp[style % len(pp)]
        sig = inspect.signature(ref.__init__).parameters
    defaults = {k: z.default for k, z in sig.items()
                if z.kind is z.KEYWORD_ONLY}
    key = dict(a=pair[0], b=pair[1], z='zz')

    def value(p, v):
        if p == 'z':
            return 1
        v = VALUES[key[p]][0 if v == 3 else 1]
        if name.startswith('hw2f') and key[p] != 'rho':
            v = (v, v/2)
        return v

    def params(par):
        return {key[k]: value(k, v) for k, v in par.items()}
    has_dt_default = two and not func and \
        inspect.signature(ref.__call__).parameters['dt'].default is None
    objs, mirror, stored = [], [], []
    g = Gen()
    old, infra.default_rng = infra.default_rng, g.gen
    try:
        for n, e in enumerate(rec['log']):
            what = '{} {} {}'.format(name, pair, e)
            v, par = e['vars'], params(e['par'])
            if 'z' in e['par'] and func:
                return
            if has_dt_default and set(v) == {'x'}:
                return
            tv = {k: (LINES[x] if not two else TVALS[x])
                  for k, x in v.items()}
            pos, kw = pass_vars(tv, (style + n) % 3,
                                names if two else (names[0], '?'))
            kw = {**par, **kw} if (style + n) % 2 else {**kw, **par}
            target = F if e['of'] == 0 else objs[e['of'] - 1]

            def call():
                g.reset()
                return target(*pos, **kw)
            if e['what'] == 'error':
                is_error(call, what)
                continue
            r = call()
            merged = dict(stored[e['of'] - 1]) if e['of'] else {}
            merged.update(par)
            args = [tv[k] for k in ('x', 'y') if k in tv]
            if e['what'] == 'object':
                need(isinstance(r, F), what, 'returned', type(r))
                need(all(r is not o for o in objs), what,
                     'returned an existing object')
                objs.append(r)
                stored.append(merged)
                mirror.append(None if func else ref(**merged))
            else:
                g.reset()
                if func:
                    want = ref(*args, **merged)
                elif e['of'] and not par:
                    want = mirror[e['of'] - 1](*args)
                else:
                    want = ref(**merged)(*args)
                same(r, want, what)
            for i, o in enumerate(objs):
                want = {**defaults, **stored[i]}
                if not func and name in PROCS + [FULL[p] for p in PROCS]:
                    want.update(mirror[i].args)
                got = o.params
                need(set(got) == set(want), what, 'params of object', i,
                     'are', sorted(got), 'instead of', sorted(want))
                for k in want:
                    need(equal_param(got[k], want[k]), what, 'parameter', k,
                         'of object', i, 'is', got[k], 'instead of', want[k])
                got.clear()
                need(set(o.params) == set(want), what, 'params changed')
        # evaluate all objects, once more each
        for i, o in enumerate(objs):
            args = [0.75, 0.5] if two else [[0., 0.5, 1.]]
            g.reset()
            r = o(*args)
            g.reset()
            want = ref(*args, **stored[i]) if func else mirror[i](*args)
            same(r, want, '{} object {}'.format(name, i))
    finally:
        infra.default_rng = old


def replay(rec):
    kind, style = rec['kind'], rec['style']
    if kind not in ('one', 'two'):
        for F, sig in toy_targets(kind):
            replay_toy(rec, F, sig, style)
        return
    replay_package(rec, rec['name'], rec['mode'], style)


def replay_mode(rec):
    """What is wrapped in each deployment mode."""
    m = shortcuts(rec['mode'])
    for short, full in FULL.items():
        need(iskfunc(getattr(m, short)) == rec['short'], rec['mode'], short)
        need(iskfunc(getattr(m, full)) == rec['full'], rec['mode'], full)
        plain = getattr(integ, full, None) or getattr(infra, full)
        need(issubclass(getattr(m, short), plain), short, 'is not a', full)
        need(not iskfunc(plain), full, 'was wrapped in place')
    for f in FUNCS:
        need(iskfunc(getattr(m, f)) == rec['func'], rec['mode'], f)


SLOW = ('heston_log_pdf', 'mjd_log_pdf', 'kou_log_pdf')
# functions of a call to which an error is not raised, or always is
NOT = ('bsd1d2',)


def expand(recs, rep, rep_fn):
    """Assign targets to histories: every history of a toy kind, every
    history of the kinds 'one' and 'two' to rep targets in turn."""
    one = PROCS
    two = SOURCES
    f1, f2 = [], []
    for f in FUNCS:
        sig = inspect.signature(getattr(ana, f)).parameters
        n = sum(z.kind is not z.KEYWORD_ONLY for z in sig.values())
        (f1 if n == 1 else f2).append(f)
    f2 = [f for f in f2 if f not in SLOW]
    out, n = [], 0
    for r in recs:
        n += 1
        # the empty function is exported as an empty sequence
        for e in r['log'] + r['objs']:
            for k in ('par', 'vars', 'val', 'last'):
                if k in e:
                    e[k] = dict(e[k])
        if r['kind'] not in ('one', 'two'):
            out.append({**r, 'style': n % 6})
            continue
        cl, fs = (one, f1) if r['kind'] == 'one' else (two, f2)
        for i in range(rep):
            name = cl[(n + i) % len(cl)]
            out.append({**r, 'style': (n*7 + i) % 6, 'name': name,
                        'mode': 'shortcuts'})
        for i in range(rep_fn):
            out.append({**r, 'style': (n*5 + i) % 30, 'mode': 'shortcuts',
                        'name': fs[(n + i) % len(fs)]})
        if n % 4 == 0:
            out.append({**r, 'style': n % 6, 'mode': 'all',
                        'name': FULL[cl[n//4 % len(cl)]]})
    # slow numerical inversions: a few short histories
    sl = [r for r in recs if r['kind'] == 'two' and len(r['log']) == 2 and
          sum(e['what'] == 'value' for e in r['log']) == 1]
    for i, r in enumerate(sl[::max(1, len(sl)//6)]):
        out.append({**r, 'style': i, 'mode': 'shortcuts',
                    'name': SLOW[i % 3]})
    return out
