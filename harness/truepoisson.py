"""Binding of specs/TruePoisson.tla to true_poisson_source."""
import numpy as np
from .core import need, close, num, import_sdepy

# layouts: vshape, paths, assignment of the two cells
LAYOUTS = [((), 2, [0, 1]),
           ((2,), 1, [[0], [1]]),
           ((2,), 2, [[0, 1], [1, 0]]),
           ((2, 2), 1, [[[0], [0]], [[0], [1]]]),
           ((1, 2), 3, [[[1, 1, 0], [0, 1, 1]]])]


class Draws:
    """A generator giving the counts of the behaviour being replayed, and
    remembering what it was asked."""
    many = 1

    def __init__(self, cells):
        self.cells, self.asked = np.array(cells), []

    def _values(self, arg, size, pending):
        shape = np.broadcast(*arg).shape if size is None else \
            tuple(np.atleast_1d(size).tolist())
        need(shape == self.cells.shape, 'draws of shape', shape, 'for counts of shape',
             self.cells.shape)
        return self.many*np.array(pending)[self.cells].astype(np.int64)

    def poisson(self, lam=1., size=None):
        z = self._values((np.asarray(lam),), size, self.pending['n']
                         if self.pending['kind'] == 'poisson' else [0, 0])
        self.asked.append(('poisson', np.broadcast_to(lam, z.shape).copy(), None))
        return z

    def binomial(self, n, p, size=None):
        need(np.asarray(n).dtype.kind in 'iu', 'binomial with non integer n')
        z = self._values((np.asarray(n), np.asarray(p)), size, self.pending['k']
                         if self.pending['kind'] == 'binomial' else [0, 0])
        n = np.broadcast_to(n, z.shape).copy()
        self.asked.append(('binomial', n, np.broadcast_to(p, z.shape).copy()))
        return z


def rates(sp, full, spec_t, real):
    """forms of the intensity, with the value it should have at time m
    (specification units)"""
    vec = 1. + np.arange(np.prod(full[:-1])).reshape(full[:-1] + (1,))
    yield 2., lambda m: 2.
    yield vec.tolist(), lambda m: vec
    yield 1 + np.arange(full[-1]), lambda m: 1. + np.arange(full[-1])
    yield (lambda t: 10. + spec_t(t)), lambda m: 10. + m
    yield (lambda t: vec*(spec_t(t) + 8)**2), lambda m: vec*(m + 8)**2
    yield (lambda s: list(vec*(spec_t(s) + 8)) if full[:-1] else 3), \
        lambda m: vec*(m + 8) if full[:-1] else 3.
    tt = np.array([-12., -1.5, .5, 12.])
    xx = np.array([2., 3., 1., 6.])
    yield sp.process(real(tt), v=xx.reshape((4,) + (1,)*len(full[:-1]))), \
        lambda m: np.interp(m, tt, xx)
    yield sp.process(c=vec[..., 0]), lambda m: vec


def replay(rec):
    sp = import_sdepy()
    log = rec['log']
    h = sum((i + 3)*(e['s'] + 20) + sum(e['c']) for i, e in enumerate(log))
    sc, off = ((1., 0.), (.5, 2.), (4., -1.))[h % 3]

    def real(k):
        return k*sc + off

    def spec_t(t):
        return (t - off)/sc
    vshape, paths, cells = LAYOUTS[h//3 % len(LAYOUTS)]
    cells = np.array(cells)
    full = vshape + (paths,)
    lams = list(rates(sp, full, spec_t, real))
    lam, value = lams[h//15 % len(lams)]
    rng = Draws(cells)
    # this many events for each
    many = {0: 1000, 1: 10**6}.get(h//11 % 8, 1)

    def counts(c):
        return many*np.array(c)[cells]
    rng.many = many
    dtype = ({}, {'dtype': float}, {'dtype': np.int32}, {})[h//7 % 4]
    src = sp.true_poisson_source(paths=paths, vshape=vshape, rng=rng, lam=lam,
                                 t0=real(rec['origin']), z0=many*rec['z0'], **dtype)
    what = 'lam form {} layout {} {}'.format(h//15 % len(lams), full, dtype)

    def check(z, e, w):
        need(z.dtype == dtype.get('dtype', int), w, 'counts of type', z.dtype)
        close(z, counts(e['c']), w, exact=True)
    for n, e in enumerate(log):
        w = what + ' query {} at {}'.format(n, e['s'])
        rng.pending, rng.asked = e['draw'], []
        s = real(e['s'])
        v = (h + n) % 4
        if v == 0:
            z = src(np.array([s]))[0]
        elif v == 1 and rec['origin'] != e['s']:
            # increments from the origin
            z = src(real(rec['origin']), s - real(rec['origin'])) + many*rec['z0']
        elif v == 2:
            z = src[()](s)
        else:
            z = src(s)
        check(z, e, w)
        d = e['draw']
        events = [a for a in rng.asked if a[0] == 'poisson' or a[1].any()]
        if d['kind'] == 'none':
            need(not events, w, 'unexpected draws', events)
        else:
            need(len(events) == 1 and events[0][0] == d['kind'], w,
                 'expected one', d['kind'], 'draw instead of', events)
            _, a, p = events[0]
            if d['kind'] == 'poisson':
                close(a, np.broadcast_to(value(d['mid2']/2)*d['len']*sc, full),
                      w + ' expected number of events')
            else:
                close(a, counts(d['n']), w + ' events to split')
                close(p[a > 0], np.full((a > 0).sum(), num(d['p'])),
                      w + ' probability')
    # everything again, in one call
    rng.pending, rng.asked = {'kind': 'none'}, []
    z = src([real(e['s']) for e in log])
    for i, e in enumerate(log):
        check(z[i], e, what + ' finally at {}'.format(e['s']))
    need(not [a for a in rng.asked if a[0] == 'poisson' or a[1].any()],
         what, 'draws for known counts')
