"""Binding of specs/Increments.tla and specs/CPoissonTrace.tla to the sources
without memory and with antithetic paths."""
import itertools
import numpy as np
from .core import need, close, num, expect_error, import_sdepy
from .noise import Gaussian, law as gauss_law
from .truepoisson import rates
from .truecpoisson import Jumps, integers
from . import truewiener

GRIDS = ((1., 0.), (.5, 2.), (4., -1.))
# very short and very long times, in the range of increments of any type
EXTREMES = ((2.**-26, 0.), (2.**24, 0.))


def hash_of(rec):
    h = rec['paths']
    for e in rec['log']:
        for a in (e['t'], e['dt']):
            h = h*31 + sum((i + 1)*(k + 9) for i, k in enumerate(a['data'])) \
                + 5*len(a['shape'])
    return h


def shaped(a, f, flavour):
    z = np.array([f(k) for k in a['data']], dtype=float).reshape(a['shape'])
    if a['shape'] == []:
        return (float(z), z, np.float64(z))[flavour % 3]
    return z.tolist() if flavour % 2 else z


class Calls:
    """Real arguments of the specified calls."""

    def __init__(self, rec, rep=None, grids=GRIDS):
        self.rec, self.h, self.rep = rec, hash_of(rec), rep
        self.sc, self.off = grids[self.h % len(grids)]
        self.kept = {}

    def real(self, k):
        return k*self.sc + self.off

    def spec_t(self, t):
        return (t - self.off)/self.sc

    def args(self, n):
        e = self.rec['log'][n]
        t = shaped(e['t'], self.real, self.h + n)
        dt = shaped(e['dt'], lambda k: k*self.sc, self.h//2 + n)
        if self.rep and e['ok']:
            # the same points over and over, along a further axis
            t = np.asarray(t)
            t = t.reshape((1,)*(len(e['shape']) - t.ndim) + t.shape)
            t = np.repeat(t[np.newaxis], self.rep, axis=0)
        return t, dt

    def points(self, n):
        return self.rec['log'][n]['points']*(self.rep or 1)

    def run(self, src, n):
        """result of the n-th call, or None if it has to be rejected"""
        e = self.rec['log'][n]
        if not e['ok']:
            expect_error(lambda: src(*self.args(n)), (ValueError,),
                         'call {} with shapes that do not broadcast'.format(n))
            return None
        a = self.args(n)
        given = [np.array(x) for x in a]
        z = src(*a)
        for x, y in zip(a, given):
            need(np.array_equal(x, y), 'times given as', y.tolist(),
                 'changed to', np.asarray(x).tolist(), 'by call', n)
        shape = ((self.rep,) if self.rep else ()) + tuple(e['shape']) \
            + src.vshape + (src.paths,)
        need(z.shape == shape, 'increments of shape', z.shape, 'instead of', shape)
        # results belong to the caller: later calls leave them as they are
        for old, copy in self.kept.get(id(src), (None, []))[1]:
            need(np.array_equal(old, copy), 'result of an earlier call changed '
                 'by call', n)
            if old.flags.writeable:
                old[...] = 99
        self.kept[id(src)] = (src, [(z, z.copy())])
        return z.copy()


def wiener_setups(sp, name, real, spec_t):
    for kw, vshape, C in truewiener.setups(sp, name, real, spec_t):
        yield kw, vshape, ('none' if C is None else '2x2' if isinstance(C, str) else C)
    if name != 'zero':
        def rho(t):
            r = truewiener.corr_of(name, spec_t(t))
            return np.array([r, -r/2])
        yield dict(rho=rho), (4,), '4x4'
        yield dict(rho=lambda s: rho(s).tolist()), (2, 4), '4x4'
        yield dict(rho=lambda t: rho(t).reshape(2, 1)), (4,), '4x4'


def classes(sp, kind):
    return {'plain': (sp.wiener_source, sp.poisson_source, sp.cpoisson_source),
            'odd': (sp.odd_wiener_source, None, None),
            'even': (None, sp.even_poisson_source, sp.even_cpoisson_source)}[kind]


def common(rec, src, paths, vshape, dtype, rng):
    need(src.paths == paths and src.vshape == vshape, 'source reports paths',
         src.paths, 'vshape', src.vshape, 'requested', paths, vshape)
    need(src.dtype is dtype or src.dtype == dtype, 'source reports dtype', src.dtype)
    need(src.rng is rng, 'source reports another generator')
    need(callable(src) and src.size == 0 and src.t.shape == (0,),
         'a source without memory reports stored values')


def rejected(rec, cls, **kw):
    expect_error(lambda: cls(paths=rec['paths'], **kw), (ValueError,),
                 '{} with {} paths'.format(cls.__name__, rec['paths']))


def replay_wiener(rec):
    sp = import_sdepy()
    cls = classes(sp, rec['kind'])[0]
    if cls is None:
        return
    paths = rec['paths']
    if not rec['built']:
        rejected(rec, cls)
        rejected(rec, cls, vshape=(2,), rho=.5)
        return
    c = Calls(rec, grids=GRIDS + EXTREMES)
    cases = list(wiener_setups(sp, rec['law'], c.real, c.spec_t))
    kw, vshape, C = cases[c.h//3 % len(cases)]
    dtype = (None, float, np.float32, np.float16)[c.h//7 % 4]
    vs = vshape[0] if len(vshape) == 1 and c.h % 2 else vshape
    if dtype is not None:
        kw = dict(kw, dtype=dtype)
    what = '{} {} {} {}'.format(cls.__name__, rec['law'], sorted(kw), vshape)
    tol = {np.float32: 1e-5, np.float16: 1e-2}.get(dtype, 1e-8)
    unit = np.sqrt(c.sc)
    half = paths//2
    log = rec['log']

    def experiment(rng):
        src = cls(paths=paths, vshape=vs, rng=rng, **kw)
        common(rec, src, paths, vshape, dtype, rng)
        out = []
        for n in range(len(log)):
            z = c.run(src, n)
            if z is not None:
                need(z.dtype == np.dtype(dtype), 'increments of dtype', z.dtype)
                if rec['kind'] == 'odd':
                    need(np.array_equal(z[..., half:], -z[..., :half]), what,
                         'second half is not the opposite of the first')
                out.append(z.astype(float).reshape(-1)/unit)
        return np.concatenate(out) if out else np.zeros(0)
    if not any(e['ok'] for e in log):
        experiment(np.random.default_rng(0))
        return
    mean, cov, n = gauss_law(experiment, tol)
    close(mean, np.zeros(mean.shape), what + ' mean')
    M = vshape[-1] if vshape else 1
    rows = int(np.prod(vshape[:-1])) if vshape else 1
    points = [p for e in log for p in e['points']]
    exp = np.zeros(2*(len(points), rows, M, paths))
    for k, p in enumerate(points):
        if isinstance(C, str):
            block = (np.eye(M) if C == 'none' else
                     np.array([[num(v) for v in r] for r in p['m' + C]]))
        else:
            block = C
        for r in range(rows):
            exp[k, r, :, :, k, r, :, :] = (
                p['len']*np.einsum('ij,ab->iajb', block, rec['pathcov']))
    close(cov.reshape(exp.shape), exp, what + ' covariance', rtol=tol, atol=tol)


def replay_wiener_big(rec):
    """Many paths or times: with one standard normal variate per cell, the
    squared length of the variates is that of the increments in the metric
    of their covariance."""
    sp = import_sdepy()
    cls = classes(sp, rec['kind'])[0]
    if cls is None or not rec['built']:
        return
    n = next((n for n, e in enumerate(rec['log']) if e['ok']), None)
    if n is None:
        return
    many, rep = AMPLIFIED[hash_of(rec) % len(AMPLIFIED)]
    c = Calls(rec, rep, GRIDS + EXTREMES)
    paths, indep = rec['paths']*many, rec['indep']*many
    cases = list(wiener_setups(sp, rec['law'], c.real, c.spec_t))
    kw, vshape, C = cases[c.h//3 % len(cases)]
    what = '{} {} {} {}, {} paths, {} times'.format(
        cls.__name__, rec['law'], sorted(kw), vshape, paths, rep)
    M = vshape[-1] if vshape else 1
    rows = int(np.prod(vshape[:-1])) if vshape else 1
    points = c.points(n)
    for seed in range(2):
        used = []
        xi = np.random.default_rng(c.h + seed)

        def draw(k):
            used.append(float(xi.normal()))
            return used[-1]
        src = cls(paths=paths, vshape=vshape, rng=Gaussian(draw), **kw)
        z = c.run(src, n)
        if rec['kind'] == 'odd':
            need(np.array_equal(z[..., indep:], -z[..., :indep]), what,
                 'second half is not the opposite of the first')
            z = z[..., :indep]
        z = z.reshape((len(points), rows, M, indep))
        if len(used) != z.size:
            return
        total, norm = 0., 0.
        for p, zp in zip(points, z):
            if p['len'] == 0:
                need((zp == 0).all(), what, 'increment in no time')
                continue
            B = C if not isinstance(C, str) else np.eye(M) if C == 'none' \
                else np.array([[num(v) for v in r] for r in p['m' + C]])
            if np.linalg.cond(B) > 1e6:
                return
            total += np.einsum('rip,ij,rjp->', zp, np.linalg.inv(B), zp) \
                / (p['len']*c.sc)
            norm += zp.size
        if norm == 0:
            continue
        if norm == z.size:  # else, which variates have been used is unknown
            norm = float(np.square(used).sum())
        else:
            close(total/norm, 1., what + ' mean squared length', rtol=0,
                  atol=10/np.sqrt(norm))
            continue
        close(total, norm, what + ' total squared length', rtol=1e-7, atol=1e-9)


AMPLIFIED = ((701, None), (1, 301), (67, 5), (3, 70))


def replay_poisson_big(rec):
    if rec['built'] and all(e['ok'] for e in rec['log']):
        many, rep = AMPLIFIED[hash_of(rec) % len(AMPLIFIED)]
        replay_poisson(rec, many, rep)


class Counts:
    """Generator of scripted Poisson variates, zero for zero intensity."""

    def __init__(self, h, scale=1):
        self.h, self.n, self.asked, self.scale = h, 0, [], scale
        self.pattern = ((0, 1, 0, 2), (1, 0, 3, 0, 0), (0, 0, 1, 1, 2, 0, 0),
                        (0, 0, 0, 0, 1))[h % 4]

    def poisson(self, lam=1., size=None):
        shape = np.shape(lam) if size is None else \
            tuple(int(k) for k in np.atleast_1d(size))
        lam = np.broadcast_to(lam, shape)
        need((lam >= 0).all(), 'negative expected number of events')
        out = np.zeros(shape, dtype=np.int64)
        for ix in np.ndindex(shape):
            if lam[ix] > 0:
                out[ix] = self.pattern[self.n % len(self.pattern)]*self.scale
                self.n += 1
                self.asked.append((float(lam[ix]), int(out[ix])))
        return out


LAYOUTS = [(), (2,), (2, 1), (1,)]


def replay_poisson(rec, many=1, rep=None):
    sp = import_sdepy()
    cls = classes(sp, rec['kind'])[1]
    if cls is None:
        return
    paths = rec['paths']*many
    if not rec['built']:
        rejected(rec, cls)
        rejected(rec, cls, vshape=(2,), lam=2.)
        return
    c = Calls(rec, rep)
    vshape = LAYOUTS[c.h % 4]
    half = vshape + (rec['indep']*many,)
    lams = list(rates(sp, half, c.spec_t, c.real))
    lam, value = lams[c.h//4 % len(lams)]
    rng = Counts(c.h//12, (1, 1000, 1, 10**8, 1)[c.h//3 % 5])
    dtype = (int, float, np.int32)[c.h//5 % 3]
    kw = {} if dtype is int and rec['kind'] == 'plain' else dict(dtype=dtype)
    src = cls(paths=paths, vshape=vshape, lam=lam, rng=rng, **kw)
    common(rec, src, paths, vshape, dtype, rng)
    what = '{} lam form {} {}'.format(cls.__name__, c.h//4 % len(lams), half)
    for n, e in enumerate(rec['log']):
        rng.asked = []
        z = c.run(src, n)
        if z is None:
            continue
        need(z.dtype == np.dtype(dtype), what, 'counts of dtype', z.dtype)
        if rec['kind'] == 'even':
            k = half[-1]
            need(np.array_equal(z[..., k:], z[..., :k]), what,
                 'second half is not equal to the first')
            z = z[..., :k]
        points = c.points(n)
        z = z.reshape((len(points),) + half)
        todo = iter(rng.asked)
        for p, zp in zip(points, z):
            mean = np.broadcast_to(value(p['mid2']/2)*p['len']*c.sc, half)
            for ix in np.ndindex(half):
                if mean[ix] == 0:
                    need(zp[ix] == 0, what, 'events with zero intensity')
                    continue
                got = next(todo, None)
                need(got is not None, what, 'missing Poisson draws')
                close(got[0], mean[ix], what + ' expected number of events')
                need(zp[ix] == p['sgn']*got[1], what, 'increment', zp[ix],
                     'for', got[1], 'events and sign', p['sgn'])
        need(next(todo, None) is None, what, 'too many Poisson draws')


class GivenCounts:
    """A source of scripted counting increments."""

    def __init__(self, paths, vshape, h):
        self.paths, self.vshape, self.rng_ = paths, vshape, Counts(h)
        self.dtype = int

    def __call__(self, t, dt=None):
        t, dt = np.broadcast_arrays(t, dt)
        dn = np.zeros(dt.shape + self.vshape + (self.paths,), dtype=int)
        for ix in np.ndindex(dt.shape):
            dn[ix] = np.sign(dt[ix])*self.rng_.poisson(
                abs(dt[ix]), self.vshape + (self.paths,))
        self.value = dn
        return dn.copy()


class Equal:
    """A random variable that takes one value only."""
    value = 3

    def __init__(self):
        self.total = 0

    def rvs(self, size, random_state=None):
        n = int(np.prod(size))
        self.total += n
        return np.full(size, self.value)


def record_cpoisson_many(rec):
    """a trace for CPoissonTrace, of many equal jumps"""
    sp = import_sdepy()
    cls = classes(sp, rec['kind'])[2]
    many, rep = ((1, None), (41, None), (3, 20))[hash_of(rec) % 3]
    c = Calls(rec, rep)
    scale = ((3000, 40, 300)[c.h//3 % 3], 7, 7)[hash_of(rec) % 3]
    vshape = ((), (1,), (2,), (1, 2))[c.h//9 % 4]
    y = Equal()
    rng = Counts(c.h//5, scale)
    src = cls(paths=rec['paths']*many, vshape=vshape, rng=rng, lam=1.,
              y=(y, lambda t: y)[c.h//2 % 2])
    k = rec['indep']*many
    ncells = int(np.prod(vshape + (k,)))
    trace = dict(timed=False, calls=[])
    for n, e in enumerate(rec['log']):
        rng.asked, y.total = [], 0
        z = c.run(src, n)
        if z is None:
            continue
        if rec['kind'] == 'even':
            need(np.array_equal(z[..., k:], z[..., :k]), 'second half is not '
                 'equal to the first')
            z = z[..., :k]
        call = dict(sgn=[], n=[], dz=integers(z, 'increments'), unit=y.value,
                    drawn=y.total)
        it = iter(rng.asked)
        for p in c.points(n):
            call['sgn'] += [p['sgn']]*ncells
            call['n'] += [next(it)[1] if p['sgn'] else 0 for _ in range(ncells)]
        trace['calls'].append(call)
    return trace


def record_cpoisson(rec):
    """a trace for CPoissonTrace"""
    sp = import_sdepy()
    cls = classes(sp, rec['kind'])[2]
    c = Calls(rec)
    kind = c.h//2 % 5
    vshape = ((), (1,), (1, 1))[c.h % 3] if rec['indep'] > 1 else ((2,), (), (1, 2))[c.h % 3]
    jumps = Jumps(kind)
    jumps.pool = iter([2**k for k in range(29)]) if kind == 0 else \
        iter([-2**k for k in range(29)]) if kind == 1 else jumps.pool
    at = []

    class Rv:
        def __init__(self, t):
            self.t = t

        def rvs(self, size, random_state=None):
            z = jumps.rvs(size)
            at.extend([self.t]*z.size)
            return z
    timed = c.h % 4 > 0
    y = (lambda t: Rv(integers(2*c.spec_t(np.asarray(t)), 'midpoint')[0])) \
        if timed else Rv(0)
    rng = Counts(c.h//5)
    lam = (1., lambda t: 1.)[c.h % 2]
    given = None
    kw = dict(paths=rec['paths'], vshape=vshape, rng=rng, y=y)
    v = c.h//3 % 3
    if v == 0:
        src = cls(lam=lam, **kw)
    elif v == 1:
        given = GivenCounts(rec['indep'], vshape, c.h//5)
        src = cls(dn=given, **kw)
    else:
        src = cls(dn=sp.poisson_source, lam=lam, **kw)
    common(rec, src, rec['paths'], vshape, None, rng)
    ncells = int(np.prod(vshape + (rec['indep'],)))
    trace = dict(timed=timed, calls=[])
    for n, e in enumerate(rec['log']):
        rng.asked = []
        del at[:], jumps.drawn[:]
        z = c.run(src, n)
        if z is None:
            continue
        k = rec['indep']
        if rec['kind'] == 'even':
            need(np.array_equal(z[..., k:], z[..., :k]), 'second half is not '
                 'equal to the first')
            z = z[..., :k]
        call = dict(sgn=[], mid=[], unit=0, dz=integers(z, 'increments'),
                    jumps=list(jumps.drawn), at=list(at), rows=[],
                    exposed=rec['kind'] == 'plain')
        for p in e['points']:
            call['sgn'] += [p['sgn']]*ncells
            call['mid'] += [p['mid2']]*ncells
        if given is not None:
            dn = given.value
        else:
            it = iter(rng.asked)
            dn = np.zeros(z.shape, dtype=int).reshape((len(e['points']), -1))
            for p, row in zip(e['points'], dn):
                if p['sgn']:
                    row[:] = [p['sgn']*next(it)[1] for _ in range(ncells)]
            dn = dn.reshape(z.shape)
        if call['exposed']:
            close(src.dn_value, dn, 'exposed counting increments', exact=True)
            for a in src.y_value:
                need(a.ndim == 2, 'exposed variates of shape', a.shape)
                call['rows'] += [dict(n=a.shape[1], s=s)
                                 for s in integers(a.sum(axis=1), 'variates')]
        call['n'] = [int(s*m) for s, m in zip(call['sgn'], dn.reshape(-1))]
        trace['calls'].append(call)
    return trace


def replay_cpoisson_rejected(rec):
    sp = import_sdepy()
    cls = classes(sp, rec['kind'])[2]
    if cls is not None and not rec['built']:
        rejected(rec, cls)
        rejected(rec, cls, vshape=(2,), lam=2., y=sp.norm_rv())


def cpoisson_items(recs, n):
    recs = [r for r in recs if r['built'] and r['kind'] != 'odd']
    step = max(1, len(recs)//n)
    return list(itertools.islice(recs, 0, None, step))
