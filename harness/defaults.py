"""Binding of specs/Defaults.tla: calls with parameters left out."""
from fractions import Fraction
import numpy as np
import warnings
from .core import Mismatch, need, import_sdepy

PROCS = ('interp', 'tdiff', 'pvar', 'pstd', 'vvar', 'vstd', 'tvar', 'tstd')
DATA = np.array([[[1., 4., 2.], [3., 3.5, -1.]], [[0., 2., 2.5], [5., 1., 1.]],
                 [[-2., 2., 1.], [0.5, 1., 4.]], [[3., 0., 7.], [6., 2., 0.]]])
TIMES = np.array([0., .5, 2., 3.])
SAMPLE = np.random.default_rng(11).normal(size=(4, 4))


class Kept:
    """Results, compared field by field."""
    def __init__(self):
        self.items = []

    def add(self, label, x):
        self.items.append((label, x))


def same(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(same(a[k], b[k]) for k in a)
    if a is None or b is None or isinstance(a, (str, type)):
        return a is b or a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and \
        np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')


def number(s, as_float):
    f = Fraction(s)
    return float(f) if as_float or f.denominator > 1 else int(f)


def value(sp, fam, p, s, m, alt):
    """The value a term stands for; m is the whole meaning of the call."""
    heston = 'heston' in fam
    if s == 'none':
        return None
    if p in ('paths', 'steps', 'i0', 'ddof', 'axis', 'factors', 'bins'):
        return {'list': [.25, 1.25], 'auto': 'auto'}.get(s) or int(s)
    if p in ('vshape', 'xshape', 'wshape'):
        return {'()': (), '(2,)': (2,), '2': 2}[s]
    if s == 'asis':
        return None
    if p in ('dtype', 'ptype', 'ctype'):
        if s == 'float' and alt and fam not in ('poisson_source',
                                                'true_poisson_source'):
            return None
        return dict(float=float, int=int, f4=np.float32, i4=np.int32,
                    i2=np.int16)[s] if p != 'ctype' else \
            dict(int=np.int64, i2=np.int16)[s]
    if s in ('yes', 'no'):
        return s == 'yes'
    if p == 'rtol' and s == 'max':
        return 'max'
    if p == 'y':
        if s == 'uniform':
            return sp.uniform_rv(a=0, b=1) if alt else None
        return sp.norm_rv(a=.5, b=2.)
    if s in ('poisson', 'true_poisson', 'wiener', 'cpoisson'):
        # a source built by true_cpoisson_source for itself, or an instance
        return getattr(sp, s + '_source') if alt and s[:4] != 'true' else None
    if p == 'corr':
        n = 4 if fam == 'SDEs' or heston else int(m['factors']) if 'factors' in m else 2
        return .5*np.eye(n) + .5
    if p == 'rho' and (fam == 'SDEs' or heston):
        return [number(s, True)]*2
    if p == 'range':
        return (-1., 1.5)
    if s[:1].isdigit() or s[:1] == '-':
        return number(s, True)
    return s


def arguments(sp, fam, d, m, alt=0):
    return {p: value(sp, fam, p, s, m, alt) for p, s in (d or {}).items()}


def run_source(sp, fam, kw, k):
    src = getattr(sp, fam)(rng=np.random.default_rng(7), **kw)
    memory = fam.startswith('true')
    for a in ('paths', 'vshape', 'dtype', 'lam', 'ptype', 'corr', 'rtol',
              't0', 'z0', 'size', 't'):
        v = getattr(src, a, 'absent')
        if a == 'dtype':
            v = np.dtype(float if v is None else v)
        if a in ('lam', 'z0', 't0') and v != 'absent':
            v = np.asarray(v, float)
        k.add(a, v)
    k.add('draws', src(0., .5))
    k.add('draws', src([1., 2.], [.5, -1.]))
    if memory:
        for t in ([0., 3.], 2., 2.3, -1., -.9, 1.1, 2.1):
            k.add(('value at', t), src(t))
        k.add('t', src.t)
        k.add('size', src.size)


def run_dist(sp, fam, kw, k):
    rv = getattr(sp, fam)(**kw)
    k.add('sample', rv.rvs(size=6, random_state=np.random.default_rng(3)))
    for a in ('mean', 'var', 'std', 'exp_mean'):
        k.add(a, getattr(rv, a)())


def run_generator(sp, fam, kw, k):
    base = getattr(sp, fam)

    class G(base):
        def begin(self):
            self.itervars['xw'][0][...] = 1.

        def store(self, i, k):
            self.itervars['xx'][i][...] = self.itervars['xw'][k]
    if fam == 'paths_generator':
        def next(self):
            sw, xw = self.itervars['sw'], self.itervars['xw']
            xw[1][...] = xw[0]*1.25 + (sw[1] - sw[0])
        G.next = next
    else:
        def A(self, t, x):
            return {'dt': x + .5}

        def dZ(self, t, dt):
            return {'dt': dt}

        def twin_next(self):
            self.euler_next()
        G.A, G.dZ, G.twin_next = A, dZ, twin_next
    g = G(**kw)
    attributes(g, k)
    x = g([0., 1., 2.])
    k.add('values', x if isinstance(x, tuple) else (x.t, x.x))
    k.add('info', dict(g.info))
    # information is not shared between objects
    need(G(**kw).info == {}, fam, 'new object with information in it')


def attributes(g, k):
    for a in ('paths', 'xshape', 'wshape', 'vshape', 'steps', 'i0', 'getinfo',
              'method', 'log', 'q'):
        k.add(a, getattr(g, a, None))


def run_process(sp, fam, kw, k):
    if fam == 'SDEs':
        class P(sp.SDEs, sp.integrator):
            q = 2

            def sde(self, t, x, y):
                return {'dt': y, 'dw': .5}, {'dt': x, 'dw': .25}
    elif fam.startswith('SDE'):
        class P(sp.SDE, sp.integrator):
            sources = {'dt', fam[4:] or 'dw'}

            def sde(self, t, x):
                return {'dt': x, fam[4:] or 'dw': .5}
    else:
        class P(getattr(sp, fam)):
            pass

    def twin_next(self):
        self.euler_next()
    P.twin_next = twin_next
    g = P(rng=np.random.default_rng(7), **kw)
    attributes(g, k)
    for t in ([0., 1., 2.], [0., .5]):
        if abs(kw.get('i0', 0)) == 1 and len(t) == 2:
            continue
        x = g(t)
        for y in x if isinstance(x, (tuple, list)) else (x,):
            k.add('timeline', y.t)
            k.add('values', y.x)
        k.add('info', dict(g.info))
    need(P(rng=np.random.default_rng(7), **kw).info == {}, fam,
         'new object with information in it')


def run_calc(sp, fam, kw, k):
    if fam == 'process':
        p = sp.process(x=DATA[:1], **kw)
    elif fam == 'piecewise':
        p = sp.piecewise(TIMES, x=DATA, **kw)
        k.add('around', p([-1., 0., .2, .25, .3, .5, 1., 1.25, 2.9, 3., 4.]))
    elif fam == 'interp':
        p = sp.process(TIMES, x=DATA)
        s = [-1., .1, .25, .7, 1.9, 2.5, 3.5]
        for z in (p.interp(**kw)(s), p(s, **kw), p(s, .5, **kw),
                  p.rebase(s, **kw).x):
            k.add('values', z)
    else:
        p = getattr(sp.process(TIMES, x=DATA), fam)(**kw)
    k.add('timeline', p.t)
    k.add('values', p.x)


def run_carlo(sp, fam, kw, k):
    if fam == 'montecarlo':
        m = sp.montecarlo(SAMPLE, **kw)
        # further samples
        m.update(2*SAMPLE)
    elif fam == 'update':
        m = sp.montecarlo(bins=5)
        m.update(SAMPLE, **kw)
        m.update(SAMPLE + .5, **kw)
    else:
        m = sp.montecarlo(SAMPLE, bins=6)[1]
        f = m.pdf if fam == 'mcpdf' else m.cdf
        for x in (.3, [-9., -.5, 0., 1., 9.]):
            k.add('values', f(x, **kw))
        return
    k.add('paths', m.paths)
    k.add('shape', m.shape)
    k.add('stats', m.stats)
    for i in range(4):
        k.add('histogram', m[i].histogram())
        k.add('outside', m[i].outpaths)


def outcome(sp, fam, kw):
    k = Kept()
    f = run_source if fam.endswith('source') else \
        run_dist if fam.endswith('_rv') else \
        run_generator if fam in ('paths_generator', 'integrator') else \
        run_process if fam.startswith('SDE') or fam.endswith('_process') else \
        run_calc if fam in PROCS + ('process', 'piecewise') else run_carlo
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            f(sp, fam, kw, k)
        except Mismatch:
            raise
        except Exception as e:
            k.add('raised', type(e).__name__ + ': ' + str(e)[:60])
    return k.items


def compare(a, b, fam, given):
    for (la, x), (lb, y) in zip(a + [('end', 0)]*len(b), b + [('end', 0)]*len(a)):
        if la == lb == 'end':
            break
        need(la == lb and same(x, y), fam, 'given', sorted(given or ()), ':',
             la, 'is', str(x)[:100], 'but is', str(y)[:100],
             'if given as documented')


def replay(rec):
    sp = import_sdepy()
    fam, given, means, doc = (rec[k] for k in ('fam', 'given', 'means', 'doc'))
    n = len(given or ()) + sum(map(len, (given or {}).values()))
    a = outcome(sp, fam, arguments(sp, fam, given, means, 1))
    again = outcome(sp, fam, {})
    b = outcome(sp, fam, arguments(sp, fam, means, means, n % 2))
    compare(a, b, fam, given)
    need(a[-1][0] != 'raised', fam, 'given', sorted(given or ()), a[-1][1])
    # nothing given: as documented, whatever was given before
    compare(again, outcome(sp, fam, arguments(sp, fam, doc, doc, 1 - n % 2)),
            fam, ())
