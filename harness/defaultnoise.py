"""Binding of specs/DefaultNoise.tla to the noise built-in processes (and
plain SDEs) set up by themselves when no source is given."""
import numpy as np
from .core import need, close, num, import_sdepy
from .presets import NAMES
from . import noise, jumpdist

PATHS = 2


def value(p):
    """the value of a parameter as a function of time"""
    c = np.array([[num(a), num(b)] for a, b in p['v']])
    return lambda m: c[:, 0] + c[:, 1]*m


def cls(sp, user, sources):
    """class of the process, recording the increments it integrates"""
    name = user['name']
    if name in NAMES:
        base = (getattr(sp, NAMES[name]),)
    elif name == 'SDE':
        class base(sp.SDE):
            def sde(self, t, x):
                return {i: 1 for i in self.sources}
        base.sources = sources
        base = (base, sp.integrator)
    else:
        class base(sp.SDEs):
            q = 2
            addaxis = bool(user['extra'])

            def sde(self, t, x, y):
                return ({i: 1 for i in self.sources},)*2
        base.sources = sources
        base = (base, sp.integrator)

    def dZ(self, t, dt):
        z = super(P, self).dZ(t, dt)
        dj = self.sources.get('dj')
        self.seen.append((t, dt, dict(z), getattr(dj, 'dn_value', None),
                          getattr(dj, 'y_value', None)))
        return z
    P = type('P', base, dict(dZ=dZ))
    return P


def integrate(p, log, back):
    p.seen = []
    tl = [e['t'] for e in log] + [log[-1]['t'] + log[-1]['dt']]
    p(np.array(sorted(tl), dtype=float))
    need([(s[0], s[1]) for s in p.seen] == [(e['t'], e['dt']) for e in log],
         'steps', [(s[0], s[1]) for s in p.seen])
    return p.seen


def correlation(rec, h):
    """arguments giving the correlation of the noise"""
    c, dim = rec['corr'], rec['user']['dim']
    n = dim//2
    if c == 'none':
        return {}
    r = {'half': lambda m: .5, 'step': lambda m: .5 if m < 2 else -1/3,
         'linear': lambda m: m/16, 'matrix': None}[c]

    def matrix(m):
        R = np.eye(dim)
        if r is None:
            return R + .5*(np.eye(dim, k=1) + np.eye(dim, k=-1))
        v = rho(m)
        return R + np.diag(v, n) + np.diag(v, -n)

    def rho(m):
        return np.array([r(m)] if n == 1 else [r(m), -r(m)/2])

    def fixed(f):
        return f(0)
    const = c in ('half', 'matrix')
    if r is None or h % 3 == 0:
        if const:
            return {'corr': (matrix(0), matrix(0).tolist(), matrix)[h//3 % 3]}
        return {'corr': matrix}
    if const:
        return {'rho': (rho(0) if n > 1 or h//3 % 2 else float(rho(0)[0]), rho)[h//6 % 2]}
    return {'rho': rho if n > 1 or h//3 % 2 else (lambda t: r(t))}


def replay_gauss(rec):
    sp = import_sdepy()
    u, log = rec['user'], rec['log']
    h = sum(map(ord, u['name'] + rec['corr'])) + len(u['vshape']) + log[0]['t']
    back = log[0]['dt'] < 0
    vshape = tuple(u['vshape'])
    if u['name'] in ('heston', 'full_heston', 'SDEs'):
        q = vshape + (2,) if (vshape == () or u['extra']) else \
            vshape[:-1] + (2*vshape[-1],)
    elif u['name'] == 'hw':
        q = vshape + (u['extra'],)
    else:
        q = vshape
    P = cls(sp, u, {'dt', 'dw'})
    kw = correlation(rec, h)
    if u['name'] == 'hw':
        kw['factors'] = u['extra']
    if u['name'] in ('jumpdiff', 'merton', 'kou'):
        # no jumps: those are not normal
        def dj(t, dt):
            return np.zeros(vshape + (PATHS,))
        dj.paths, dj.vshape = PATHS, vshape
        kw['dj'] = dj
    what = '{} vshape {} {}'.format(u['name'], vshape, sorted(kw))

    def experiment(rng):
        p = P(paths=PATHS, vshape=vshape, rng=rng, i0=-1 if back else 0, **kw)
        z = [s[2]['dw'] for s in integrate(p, log, back)]
        for v in z:
            need(np.shape(v) == q + (PATHS,), what, 'increments of shape', np.shape(v))
        return np.array(z)
    mean, cov, n = noise.law(experiment)
    need(abs(mean).max() < 1e-9, what, 'mean not zero')
    expected = np.zeros(cov.shape)
    shape = mean.shape
    dim = q[-1]
    for idx in np.ndindex(*shape):
        e = log[idx[0]]
        for j in range(dim):
            other = idx[:-2] + (j,) + idx[-1:]
            expected[idx + other] = abs(e['dt'])*num(e['dw'][idx[-2]][j])
    if not np.allclose(cov, expected, atol=1e-7):
        k = np.unravel_index(np.argmax(abs(cov - expected)), cov.shape)
        m = len(shape)
        need(False, what, 'corr', rec['corr'], 'step', log[k[0]]['t'], log[k[0]]['dt'],
             'covariance of', k[:m], 'with', k[m:], 'is', cov[k], 'instead of', expected[k])


class Generator(np.random.Generator):
    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.asked = []

    def poisson(self, lam=1.0, size=None):
        self.asked.append((np.array(lam, dtype=float), size))
        return super().poisson(lam, size)


def replay_jumps(rec):
    sp = import_sdepy()
    u, log, dist = rec['user'], rec['log'], rec['dist']
    name = u['name']
    h = sum(map(ord, name + dist)) + log[0]['t'] + len(rec['lam'][1]['v'])
    for n in sorted(rec['par']):
        g, p = rec['par'][n]
        for c in p['v']:
            h = h*37 + sum(a*7 + b for a, b in c) + g
    h = abs(h)
    vshape = tuple(u['vshape'])
    paths = 1500
    back = log[0]['dt'] < 0
    P = cls(sp, u, {'dt', 'dw', 'dj'} if h % 2 else {'dt', 'dj'})
    kw = {}
    given, lam = rec['lam']
    if given:
        if len(lam['v']) == 2 and vshape != (2,):
            lam = dict(lam, v=lam['v'][:1])
        kw['lam'] = jumpdist.param(lam, h)
        if len(lam['v']) == 2 and isinstance(kw['lam'], list):
            kw['lam'] = np.array(kw['lam'])
    args = {n: jumpdist.param(p, h + i) for i, (n, (g, p)) in
            enumerate(sorted(rec['par'].items())) if g}
    if name in ('merton', 'kou'):
        kw.update(args)
    elif args:
        kw['y'] = getattr(sp, dist + '_rv')(**args)
    rng = Generator(h)
    what = '{} vshape {} {} {}'.format(name, vshape, dist, sorted(kw))
    p = P(paths=paths, vshape=vshape, rng=rng, i0=-1 if back else 0, **kw)
    seen = integrate(p, log, back)
    need(len(rng.asked) == len(log), what, len(rng.asked), 'draws of counts for',
         len(log), 'steps')
    for k, (e, s) in enumerate(zip(log, seen)):
        w = '{} step {} {}'.format(what, e['t'], e['dt'])
        full = vshape + (paths,)
        l = np.array([num(v) for v in e['lam']]).reshape(2, 1)
        l = l if vshape == (2,) else l[:1] if len(rec['lam'][1]['v']) == 1 or not vshape else l
        if not vshape:
            l = l[0]
        arg, size = rng.asked[k]
        shape = arg.shape if size is None else tuple(np.atleast_1d(size))
        close(np.broadcast_to(np.broadcast_to(arg, shape), full),
              np.broadcast_to(abs(e['dt'])*l, full), w + ' mean of the counts')
        z, dn, y = s[2]['dj'], s[3], s[4]
        need(np.shape(z) == full, w, 'jumps of shape', np.shape(z))
        need(dn is not None and np.shape(dn) == full, w, 'dn_value', np.shape(dn))
        y = np.concatenate([np.ravel(v) for v in y]) if isinstance(y, (list, tuple)) \
            else np.ravel(y)
        out = dict(e['jump'])
        jumpdist.law(dist, [out], ([1, 1], [0, 1]), y, w + ' size of jumps')
        close(np.sum(z), np.sum(y)*np.sign(e['dt']), w + ' sum of the jumps')


def replay(rec):
    (replay_gauss if rec['user']['dim'] else replay_jumps)(rec)
