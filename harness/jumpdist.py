"""Binding of specs/JumpDist.tla to the jump distributions."""
import json
import zlib
import numpy as np
import scipy.special
from .core import need, close, num, expect_error, import_sdepy

SAMPLE = 4000


def number(v):
    return np.inf if v[1] == 0 else num(v)


def param(p, flavour):
    c = np.array([[num(a), num(b)] for a, b in p['v']])
    c0, c1 = c[:, 0].reshape(-1, 1), c[:, 1].reshape(-1, 1)
    if len(c) == 1:
        c0, c1 = float(c0[0, 0]), float(c1[0, 0])
    if not p['cl']:
        if len(c) == 1 and c0 == int(c0) and flavour % 2:
            return int(c0)
        return c0.tolist() if flavour % 3 == 0 and len(c) > 1 else c0
    if flavour % 2:
        return lambda s: c0 + c1*s
    return lambda t: np.asarray(c0) + c1*t


def cdf(dist, p, x):
    if dist == 'norm':
        if p['b'] == 0:
            return (x >= p['a']).astype(float)
        return scipy.special.ndtr((x - p['a'])/p['b'])
    if dist == 'uniform':
        return np.clip((x - p['a'])/(p['b'] - p['a']), 0, 1)
    if dist == 'exp':
        a = p['a']
        z = np.exp(-np.maximum(x/a, 0))
        return 1 - z if a > 0 else z
    pa = p['pa']
    return np.where(x < 0, (1 - pa)*np.exp(np.minimum(x, 0)/p['b']),
                    1 - pa*np.exp(-np.maximum(x, 0)/p['a']))


FUNCS = {'2*z+1': (lambda z: 2*z + 1, lambda y: 2*y + 1),
         't*z': (lambda t, z: t*z, lambda t, y: t*y),
         's+z': (lambda s, z: s + z, lambda s, x: s + x)}


def law(dist, out, affine, x, what):
    """is the sample x (last axis) distributed as specified?"""
    m, c = num(affine[0]), num(affine[1])
    x = np.atleast_2d(x)
    for k, o in enumerate(out):
        p = {n: num(v) for n, v in o['par'].items()}
        xk = np.sort(x[k])
        need(np.isfinite(xk).all(), what, 'variates not finite')
        n = xk.size
        mean, std = m*num(o['mean']) + c, abs(m)*np.sqrt(num(o['var']))
        w = '{} component {}'.format(what, k)
        if std == 0:
            need(np.allclose(xk, mean), w, 'should be constant, equal to', mean)
            continue
        need(abs(xk.mean() - mean) < 6*std/np.sqrt(n), w, 'sample mean',
             xk.mean(), 'for', mean)
        f = cdf(dist, p, (xk - c)/m)
        if m < 0:
            f = 1 - f
        i = np.arange(n)
        ks = np.maximum(abs(f - i/n), abs(f - (i + 1)/n)).max()
        need(ks < 3./np.sqrt(n), w, 'sample does not follow the law, distance', ks)
        # variates are independent of each other
        z = x[k] - mean
        r = (z[1:]*z[:-1]).mean()/std**2
        need(abs(r) < 8/np.sqrt(n), w, 'variates are correlated', r)


def build(sp, rec, flavour):
    args = {n: param(p, flavour + i) for i, (n, (g, p)) in
            enumerate(sorted(rec['par'].items())) if g}
    dist = rec['dist']
    if flavour % 3 == 0 and not rec['maps'] and dist in ('norm', 'double_exp') \
            and set(args) == set(rec['par']):
        cls = sp.merton_jumpdiff_process if dist == 'norm' else sp.kou_jumpdiff_process
        n = len(rec['out'])
        p = cls(paths=1, vshape=(2,) if n == 2 else (), **args)
        return p.sources['dj'].y, cls.__name__, True
    return getattr(sp, dist + '_rv')(**args), dist + '_rv', False


def replay(rec):
    sp = import_sdepy()
    h = rec['time']
    for i, n in enumerate(sorted(rec['par'])):
        g, p = rec['par'][n]
        for c in p['v']:
            h = h*37 + sum(a*7 + b for a, b in c) + g
    h = abs(h)
    for m in rec['maps']:
        h = h*5 + len(m)
    t = (rec['time'], float(rec['time']))[h % 2]
    n = len(rec['out'])
    size = (SAMPLE,) if n == 1 else (2, SAMPLE)
    mk = np.random.RandomState if h % 5 == 0 else np.random.default_rng
    rng = mk(h % 10**6)

    def run():
        y, what, process = build(sp, rec, h)
        for k, m in enumerate(rec['maps']):
            y = sp.rvmap(FUNCS[m][(h + k) % 2], y)
            what += ' ' + m
        if not process or not callable(y):
            need(callable(y) == rec['timed'], what, 'time dependent:', callable(y))
        if not callable(y):
            need(not rec['timed'], what, 'should depend on time')
            return y, what, process
        return y(t), what, process
    if not rec['valid']:
        expect_error(lambda: run()[0].rvs(size=size, random_state=rng), (ValueError,),
                     'invalid parameters for {}'.format(rec['dist']))
        return
    y, what, process = run()
    what = '{} at {}'.format(what, t)
    x = y.rvs(size=size, random_state=rng)
    need(np.shape(x) == size, what, 'variates of shape', np.shape(x))
    law(rec['dist'], rec['out'], rec['affine'], x, what)
    if rec['maps']:
        # each variate is the function of that of the mapped distribution
        y0 = build(sp, rec, h)[0]
        y0 = y0(t) if callable(y0) else y0
        z = y0.rvs(size=size, random_state=mk(h % 10**6))
        m, c = num(rec['affine'][0]), num(rec['affine'][1])
        close(x, m*z + c, what + ' variates')
        return
    shape = (2, 1) if n == 2 else ()

    def moment(f, v, w):
        f = np.asarray(f(), dtype=float)
        v = np.array([v(o) for o in rec['out']]).reshape(shape)
        need(f.shape in ((), shape), what, w, 'of shape', f.shape)
        close(np.broadcast_to(f, shape), v, what + ' ' + w)
    moment(y.mean, lambda o: num(o['mean']), 'mean')
    moment(y.var, lambda o: num(o['var']), 'var')
    moment(y.std, lambda o: np.sqrt(num(o['var'])), 'std')

    def expmean(o):
        p = {k: num(v) for k, v in o['par'].items()}
        if rec['dist'] == 'norm':
            return np.exp(num(o['expmean']))
        if rec['dist'] == 'uniform':
            return (np.exp(p['b']) - np.exp(p['a']))/(p['b'] - p['a'])
        return number(o['expmean'])
    moment(y.exp_mean, expmean, 'exp_mean')


# ---- histories of evaluations ----------------------------------------------

class Box:
    """a time-dependent parameter that can be revised"""

    def __init__(self, sp, p, kind):
        self.kind = kind
        if kind == 0:
            self.f = sp.process(t=[0., 4.], x=self.values(p))
        else:
            self.now = param(p, 1)
            self.f = (lambda t: self.now(t)) if kind == 1 else \
                (lambda s: np.array(self.now(s)))

    @staticmethod
    def values(p):
        c = np.array([[num(a), num(b)] for a, b in p['v']])
        x = np.array([c[:, 0], c[:, 0] + 4*c[:, 1]])
        return x[..., None] if len(c) > 1 else x

    def revise(self, p):
        if self.kind == 0:
            self.f[...] = self.values(p)
        else:
            self.now = param(p, 1)


def replay_hist(rec):
    sp = import_sdepy()
    h = zlib.crc32(json.dumps(rec, sort_keys=True).encode())
    args, boxes = {}, {}
    for i, (n, (g, p)) in enumerate(sorted(rec['par'].items())):
        if g and p['cl']:
            boxes[n] = Box(sp, p, (h + i) % 3)
            args[n] = boxes[n].f
        elif g:
            args[n] = param(p, h + i)
    y = getattr(sp, rec['dist'] + '_rv')(**args)
    what = rec['dist'] + ' ' + ' '.join(rec['maps'])
    for k, m in enumerate(rec['maps']):
        y = sp.rvmap(FUNCS[m][(h//7 + k) % 2], y)
    for k, e in enumerate(rec['log']):
        if e['op'] == 'revise':
            boxes[e['p']].revise(e['x'])
            continue
        w = '{} evaluation {} at {}'.format(what, k + 1, e['t'])
        t = (e['t'], float(e['t']))[h//9 % 2]
        rv = y(t)
        n = len(e['out'])
        size = (SAMPLE,) if n == 1 else (2, SAMPLE)
        mk = np.random.RandomState if (h + k) % 3 == 0 else np.random.default_rng
        x = rv.rvs(size=size, random_state=mk(h % 10**6))
        need(np.shape(x) == size, w, 'variates of shape', np.shape(x))
        law(rec['dist'], e['out'], e['affine'], x, w)
        close(rv.rvs(size=size, random_state=mk(h % 10**6)), x,
              w + ', the same generator state', exact=True)
        if not rec['maps']:
            close(np.ravel(np.broadcast_to(rv.mean(), (n, 1))),
                  [num(o['mean']) for o in e['out']], w + ' mean')
