"""Recording of histories of true_cpoisson_source, for
specs/TrueCPoissonTrace.tla."""
import itertools
import numpy as np
from .core import need, import_sdepy
from .truepoisson import Draws, LAYOUTS


def pool(kind):
    """jump values: distinct sums, or with zeros, or cancelling out"""
    if kind == 0:
        return itertools.cycle([2**k for k in range(22)])
    if kind == 1:
        return itertools.cycle([-3**k for k in range(14)])
    if kind == 2:
        return itertools.cycle([1, 0, 8, 0, 0, 64, -8])
    if kind == 3:
        return itertools.cycle([5, -5, 0, 5, -5])
    return itertools.repeat(0)


class Jumps:
    """The distribution of jumps: gives values from a pool, and keeps them."""

    def __init__(self, kind, dtype=float):
        self.pool, self.drawn, self.mids = pool(kind), [], []
        self.dtype = dtype

    def rvs(self, size, random_state=None):
        z = np.empty(size)
        z.reshape(-1)[:] = [next(self.pool) for _ in range(z.size)]
        self.drawn += [int(k) for k in z.reshape(-1)]
        return z


def integers(z, what):
    z = np.asarray(z).reshape(-1)
    need(np.all(z == np.round(z)), what, 'not made of whole jumps:', z.tolist())
    return [int(k) for k in z]


def drive(origin, z0, queries, setup, jump_kind, timed, sc, off, pre=()):
    """queries: times, or (time, pending draw) pairs"""
    sp = import_sdepy()
    jumps = Jumps(jump_kind)

    def real(k):
        return k*sc + off
    if timed:
        def y(t):
            jumps.mids.append(t)
            return jumps
    else:
        y = jumps
    rng, src = setup(sp, real, y)
    trace = dict(t0=2*origin, jumps=jumps.drawn, events=[])
    ncells = int(np.prod(src.vshape + (src.paths,)))
    trace['v0'] = [z0]*ncells
    for s in pre:
        src.dn(real(s))
    trace['c0'] = integers(src.dn(real(origin)), 'counts')
    for n, q in enumerate(queries):
        s, draw = q if isinstance(q, tuple) else (q, None)
        if draw is not None:
            rng.pending, rng.asked = draw, []
        jumps.mids = []
        v = (n + jump_kind) % 3
        if v == 0:
            z = src(real(s))
        elif v == 1:
            z = src(np.array([real(s)]))[0]
        else:
            z = src(real(origin), real(s) - real(origin)) + z0
        mids = integers(4*(np.array(jumps.mids) - off)/sc, 'midpoints')
        c = src.dn(real(s))
        trace['events'].append(dict(
            s=2*s, v=integers(z, 'values'), c=integers(c, 'counts'),
            d=len(jumps.drawn), mids=mids))
    # once more, in one call
    ss = sorted({q[0] if isinstance(q, tuple) else q for q in queries})
    zz = src([real(s) for s in ss])
    for s, z in zip(ss, zz):
        trace['events'].append(dict(
            s=2*s, v=integers(z, 'values'), c=integers(src.dn(real(s)), 'counts'),
            d=len(jumps.drawn), mids=[]))
    return trace


GRIDS = ((1., 0.), (.5, 2.), (4., -1.))


def from_spec(rec):
    """the counts are those of a TruePoisson behaviour"""
    log = rec['log']
    h = sum((i + 3)*(e['s'] + 20) + sum(e['c']) for i, e in enumerate(log))
    sc, off = GRIDS[h % 3]
    kind = h//3 % 5
    lay = LAYOUTS[h//15 % (2 if kind > 1 else 4)]
    vshape, paths, cells = lay
    z0 = (0, 3)[h % 2]

    def setup(sp, real, y):
        rng = Draws(cells)
        kw = dict(paths=paths, vshape=vshape, rng=rng)
        if h % 7 < 4:
            src = sp.true_cpoisson_source(t0=real(rec['origin']), z0=z0, y=y, **kw)
        else:
            dn = sp.true_poisson_source(t0=real(rec['origin']), z0=rec['z0'], **kw)
            src = sp.true_cpoisson_source(t0=real(rec['origin']), z0=z0, y=y,
                                          dn=dn, **kw)
            need(src.dn is dn, 'the counting source given is not used')
        rng.pending = {'kind': 'none'}
        return rng, src
    return drive(rec['origin'], z0, [(e['s'], e['draw']) for e in log], setup,
                 kind, h % 2, sc, off)


def from_rng(seed):
    """random counts, more cells, random times and known counts"""
    r = np.random.default_rng(seed)
    sc, off = GRIDS[r.integers(3)]
    kind = int(r.integers(5))
    vshape, paths = [((), 4), ((2,), 3), ((3, 1), 2), ((), 1)][r.integers(4)] \
        if kind < 2 else [((), 2), ((), 1), ((2,), 1)][r.integers(3)]
    origin = int(r.integers(-3, 4))
    z0 = int(r.integers(3))
    times = r.permutation(np.arange(-8, 9))[:7].tolist()
    n = int(r.integers(3, 7))
    lam = .25/sc if kind < 2 else .15/sc
    pre = times[n:] if r.integers(3) == 0 else []
    queries = times[:n] + [times[int(r.integers(n))]]
    rng = np.random.default_rng(seed)

    def setup(sp, real, y):
        kw = dict(paths=paths, vshape=vshape, rng=rng, t0=real(origin))
        if pre:
            kw['dn'] = sp.true_poisson_source(lam=lam, **kw)
        else:
            kw['lam'] = (lam, lambda t: lam, sp.process(c=lam))[seed % 3]
        return rng, sp.true_cpoisson_source(z0=z0, y=y, **kw)
    return drive(origin, z0, queries, setup, kind, seed % 2, sc, off, pre)


def from_long(seed):
    """long histories, hundreds of jumps, of value 1 or 1000"""
    sp = import_sdepy()
    r = np.random.default_rng(seed)
    sc, off = GRIDS[r.integers(3)]
    vshape, paths = [((), 3), ((2,), 2), ((2, 1), 1), ((), 1)][r.integers(4)]
    origin, z0 = int(r.integers(-3, 4)), int(r.integers(3))
    times = r.permutation(np.arange(-90, 91))[:80].tolist()
    times += [times[int(k)] for k in r.integers(80, size=20)]
    lam = float(r.choice([.05, 1., 3., 20.]))/sc
    drawn, mids = [0, 0], []

    class Jumps:
        def rvs(self, size, random_state=None):
            z = np.where(r.random(size) < .4, 1000., 1.)
            drawn[0] += int((z == 1).sum())
            drawn[1] += int((z == 1000).sum())
            return z
    jumps = Jumps()

    def y(t):
        mids.append(t)
        return jumps

    def real(k):
        return k*sc + off
    src = sp.true_cpoisson_source(
        paths=paths, vshape=vshape, t0=real(origin), z0=z0, lam=lam, y=y,
        rng=np.random.default_rng(seed))

    trace = dict(t0=2*origin, c0=integers(src.dn(real(origin)), 'counts'),
                 v0=[z0]*int(np.prod(vshape + (paths,))), events=[])

    def tell(s, z):
        trace['events'].append(dict(
            s=2*s, v=integers(z, 'values'), d=list(drawn),
            c=integers(src.dn(real(s)), 'counts'),
            mids=integers(4*(np.array(mids) - off)/sc, 'midpoints')))
    for n, s in enumerate(times):
        del mids[:]
        tell(s, src(np.array([real(s)]))[0] if n % 5 == 0 else src(real(s)))
    # once more, in one call
    del mids[:]
    for s, z in zip(times, src([real(s) for s in times])):
        tell(s, z)
    return trace
