"""Replay of behaviours of specs/Montecarlo.tla: updates, rejected updates
and views of montecarlo instances, with their statistics, histograms and
distributions."""
import hashlib
import json
import math

from .core import (need, close, num, expect_error, import_sdepy)

sdepy = import_sdepy()
import numpy as np  # noqa
import scipy.special  # noqa

ERRORS = (ValueError, IndexError)


def val(pat, c, k):
    if pat == 1:
        return (3*k + 2*c) % 5
    if pat == 2:
        return (k*k + c) % 7 - 2
    if pat == 3:
        return 1 + c
    if pat == 4:
        return 4 if k == 1 else c - 3
    if pat == 5:
        return k % 2
    return (3*k + 2*c) % 5


def raw(b):
    sh, n = tuple(b['sh']), b['n']
    size = int(np.prod(sh, dtype=int))
    x = np.array([[val(b['pat'], c, k) for k in range(1, n + 1)]
                  for c in range(size)], dtype=float)
    if b['pat'] == 0:
        x[-1, -1] = np.nan
    return x.reshape(sh + (n,))


class Run:

    # scale and offset of the data, exact in binary
    VARIANTS = ((1., 0.), (4., 0.), (1., 8.), (0.25, -3.), (1., 2.**20),
                (2.**-10, 0.))

    def __init__(self, rec):
        self.rec = rec
        h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).digest()
        self.h = h
        self.use, self.kind = rec['use'], rec['binkind']
        self.a, self.off = self.VARIANTS[h[0] % len(self.VARIANTS)]
        if self.kind in ('one', 'four', 'root', 'rootranged'):
            # numpy widens the range of constant data by a fixed amount
            self.a = 1.
        if self.use == 'odd':
            # offsets cancel out
            self.off0, self.off = self.off, 0.
        else:
            self.off0 = self.off
        self.sc = rec['scale']
        tr = lambda v: self.a*num(v) + self.off  # noqa
        kw = {}
        if self.kind == 'none':
            kw['bins'] = None
        elif self.kind == 'one':
            kw['bins'] = 1
        elif self.kind == 'four':
            kw['bins'] = 4
        elif self.kind == 'ranged':
            kw.update(bins=4, range=(tr(-1), tr(3)))
        elif self.kind == 'root':
            kw['bins'] = 'sqrt'
        elif self.kind == 'rootranged':
            kw.update(bins='sqrt', range=(tr(-1), tr(3)))
        elif self.kind == 'explicit0':
            kw['bins'] = [tr(e) for e in rec['explicit'][0]]
        elif self.kind == 'explicit':
            kw['bins'] = np.array([[tr(e) for e in rec['explicit'][c]]
                                   for c in range(2)])
        elif self.kind == 'explicit2':
            kw['bins'] = np.array([[tr(e) for e in rec['explicit'][c]]
                                   for c in range(4)]).reshape(2, 2, -1)
        if self.kind.startswith('explicit'):
            if h[18] % 2:
                kw['range'] = (tr(0), tr(1))  # bins override it
            if h[19] % 3 == 0 and self.kind != 'explicit0':
                b = np.empty(kw['bins'].shape[:-1], dtype=object)
                for i in np.ndindex(b.shape):
                    b[i] = kw['bins'][i]
                kw['bins'] = b
        if self.use != 'all' or h[1] % 2:
            kw['use'] = self.use
        if h[2] % 3 == 0:
            kw['dtype'] = float
        if h[3] % 3 == 0:
            kw['ctype'] = (np.int32, float, np.int64)[h[4] % 3]
        self.kw = kw
        # each path may stand for many identical ones: statistics do not
        # change (cf. Replicas), counts are multiplied
        self.reps = {0: 701, 1: 1501}.get(h[16] % 32, 1) \
            if 'root' not in self.kind else 1
        self.mc = None
        self.views = []
        # expected: for each component, or None
        self.stats, self.n, self.paths = None, 0, 0

    def tile(self, x):
        if self.reps == 1:
            return x
        halves = [x] if self.use == 'all' or x.shape[-1] % 2 else \
            np.split(x, 2, axis=-1)
        if self.h[17] % 2:
            return np.concatenate(
                [np.repeat(z, self.reps, axis=-1) for z in halves], axis=-1)
        return np.concatenate(
            [np.tile(z, self.reps) for z in halves], axis=-1)

    # -- samples ---------------------------------------------------------
    def sample(self, b, k):
        x = self.tile(self.a*raw(b) + self.off0)
        n = len(b['sh'])
        r = self.h[5 + k % 10] % (2*(n + 1))
        axis = r - (n + 1)
        x = np.moveaxis(x, -1, axis)
        m = self.h[15 + k % 4] % 6
        if m == 0:
            x = x.tolist()
        elif m == 1 and b['pat'] != 0 and np.all(x == np.rint(x)):
            # of the smallest type, if it fits
            small = (np.int8, np.uint8, np.int16, int)[self.h[16 + k % 4] % 4]
            y = x.astype(small)
            x = y if np.array_equal(y, x) else x.astype(int)
        elif m == 2 and x.shape == (1,):
            x = x[0]
            axis = -1
        elif m == 3:
            y = np.empty(x.shape + (2,))
            y[..., 0] = x
            x = y[..., 0]   # not contiguous
        return x, axis

    def update(self, b, k):
        x, axis = self.sample(b, k)
        keep = np.array(x, copy=True)
        kw = {} if axis == -1 and self.h[6] % 2 else {'axis': axis}

        def call():
            if self.mc is None:
                mc = sdepy.montecarlo(x, **kw, **self.kw)
                self.mc = mc
            else:
                self.mc.update(x, **kw)
        if self.rec['log'][k]['ok']:
            call()
        else:
            if self.mc is None:
                expect_error(call, ERRORS, 'invalid first sample')
                self.mc = sdepy.montecarlo(**self.kw)
            expect_error(call, ERRORS, 'invalid sample')
        close(x, keep, 'sample passed to update, afterwards', exact=True)

    def bad_update(self):
        """Updates invalid in any state."""
        x = np.zeros((3, 2))
        for kw in (dict(axis=2), dict(axis=-3)):
            expect_error(lambda: self.mc.update(x, **kw), ERRORS,
                         'sample with no such axis')

    # -- expectations ----------------------------------------------------
    def expected(self, c):
        """Statistics of component c."""
        s, n, a = self.stats[c], self.n, self.a/self.sc
        var = s['c2']/n**2*a*a
        e = dict(mean=s['s1']/n*a + self.off, var=var, std=math.sqrt(var),
                 stderr=(math.sqrt(var/(self.paths - 1))
                         if self.paths > 1 else math.nan))
        if s['c2'] and n > 1:
            e['skew'] = s['c3']/n**3/(s['c2']/n**2)**1.5
            e['kurtosis'] = s['c4']/n**4/(s['c2']/n**2)**2
        return e

    def check_view(self, mc, shape, pos, what, hist=True):
        shape = tuple(shape)
        need(mc.paths == self.paths, what, ': paths', mc.paths, 'not',
             self.paths)
        need(tuple(mc.vshape) == shape, what, ': vshape', mc.vshape, 'not',
             shape)
        need(tuple(mc.shape) == shape + (self.paths,), what, ': shape',
             mc.shape)
        exp = [self.expected(c) for c in pos]
        # rounding errors are relative to the size of data
        mag = max(1., abs(self.off)/self.a)
        tol = 1e-13*mag
        st = mc.stats
        need(set(st) == {'mean', 'stderr', 'std', 'skew', 'kurtosis'},
             what, ': stats', sorted(st))
        for k in ('mean', 'var', 'std', 'stderr', 'skew', 'kurtosis'):
            got = np.asarray(getattr(mc, k)(), dtype=float)
            if k != 'stderr' or self.paths > 1:
                need(got.shape == shape, what, k, 'shape', got.shape)
            got = np.broadcast_to(got, shape)
            sel = [i for i, e in enumerate(exp) if k in e]
            unit = {'mean': self.a, 'var': self.a**2, 'std': self.a,
                    'stderr': self.a}.get(k, 1.)
            close(got.ravel()[sel]/unit, np.array([exp[i][k] for i in sel])/unit,
                  what + ': ' + k, rtol=1e-9 + 100*tol,
                  atol=(1e-9 + 100*tol if k != 'mean' else 1e-9)
                  if k not in ('std', 'stderr') else 1e-7 + 1000*tol)
            if k in st:
                close(np.broadcast_to(np.asarray(st[k], float), shape), got,
                      what + ': stats ' + k, exact=True)
        for s, k in (('m', 'mean'), ('s', 'std'), ('e', 'stderr')):
            close(getattr(mc, s), getattr(mc, k)(), what + ': ' + s, exact=True)
        need(isinstance(repr(mc), str) and '+/-' in repr(mc), what, ': repr')
        if hist:
            self.check_hist(mc, shape, pos, what)

    def check_hist(self, mc, shape, pos, what):
        if self.kind == 'none':
            expect_error(mc.histogram, (ValueError,), what + ': no bins')
            return
        if len(pos) > 1:
            expect_error(mc.histogram, (IndexError,), what + ': histogram')
            expect_error(lambda: mc.h, (IndexError,), what + ': h')
            expect_error(lambda: mc.outpaths, (IndexError,),
                         what + ': outpaths')
            expect_error(lambda: mc.pdf(0.), (IndexError,), what + ': pdf')
        else:
            self.check_single(mc, pos[0], what)
        if shape:
            for p, c in enumerate(pos):
                ix = tuple(int(v) for v in np.unravel_index(p, shape))
                self.check_single(mc[ix], c, what + str(list(ix)))

    def check_single(self, mc, c, what):
        s = dict(self.stats[c])
        s['out'] *= self.reps
        s['counts'] = [n*self.reps for n in s['counts']]
        counts, edges = mc.histogram()
        close(np.asarray(counts, float), np.array(s['counts'], float),
              what + ': counts', exact=True)
        e = np.array([self.a*num(v) + self.off for v in self.rec['bins'][c]])
        close(edges, e, what + ': bins', rtol=1e-12, atol=1e-12*self.a)
        out = np.asarray(mc.outpaths)
        need(out.size == 1 and out.ravel()[0] == s['out'], what,
             ': outpaths', out.tolist(), 'instead of', s['out'])
        need(np.sum(counts) + out.ravel()[0] == self.paths, what,
             ': counts and outpaths do not add up to paths')
        close(np.asarray(mc.outerr()).ravel()[0], s['out']/self.paths,
              what + ': outerr')
        close(np.asarray(mc.h[0]), np.asarray(counts), what + ': h', exact=True)
        tot = sum(s['counts'])
        if tot:
            w = np.diff(e)
            d, de = mc.density_histogram()
            d1 = np.array(s['counts'])/tot/w
            close(d*self.a, d1*self.a, what + ': density_histogram')
            close(de, e, what + ': density bins', rtol=1e-12,
                  atol=1e-12*self.a)
            close((d*w).sum(), 1., what + ': density, integrated')
            close(mc.dh[0], d, what + ': dh', exact=True)
            self.check_dist(mc, e, d1, w, what)

    def check_dist(self, mc, e, d, w, what):
        cum = np.concatenate([[0.], np.cumsum(d*w)])
        far = np.array([e[0] - 5*w[0], e[0] - 1e-3*w[0],
                        e[-1] + 1e-3*w[-1], e[-1] + 7*w[-1]])
        mid = (e[:-1] + e[1:])/2
        asked = [(z, z.copy()) for z in (far, mid, e)]
        cdf = lambda x, **k: mc.cdf(x, method='interp', **k)  # noqa
        pdf = lambda x, **k: mc.pdf(x, method='interp', **k)  # noqa
        close(cdf(e), cum, what + ': cdf at the edges')
        close(cdf(mid), (cum[:-1] + cum[1:])/2, what + ': cdf between edges')
        close(cdf(far), np.array([0., 0., 1., 1.]), what + ': cdf outside')
        x = np.sort(np.concatenate([far, np.linspace(e[0], e[-1], 23), e]))
        y = cdf(x)
        need(np.all(np.diff(y) >= -1e-12) and abs(y[0]) < 1e-12
             and abs(y[-1] - 1) < 1e-12, what, ': cdf not increasing from 0 to 1',
             y.tolist())
        a = self.a
        close(pdf(mid)*a, d*a, what + ': pdf at midpoints')
        close(pdf(far)*a, np.zeros(4), what + ': pdf outside')
        close(pdf(e[[0, -1]])*a, np.zeros(2), what + ': pdf at the boundaries')
        q = (e[0] + mid[0])/2
        close(pdf(q)*a, d[0]*a/2, what + ': pdf close to the lower boundary')
        close(cdf(e[0]), 0., what + ': cdf of a number')
        z = np.array([[e[0], mid[0]], [mid[-1], e[-1]]])
        close(pdf(z), pdf(z.ravel()).reshape(2, 2), what + ': pdf, 2d')
        # other kinds of interpolation, at and outside the given points
        nodes = np.concatenate([e[:1], mid, e[-1:]])
        dens = np.concatenate([[0.], d, [0.]])
        for kind, least in (('slinear', 2), ('nearest', 1), ('quadratic', 3),
                            ('cubic', 4)):
            k = dict(kind=kind)
            if len(nodes) >= least:
                close(pdf(nodes, **k)*a, dens*a, what + ': pdf, ' + kind)
                close(pdf(far, **k)*a, np.zeros(4),
                      what + ': pdf outside, ' + kind)
            if len(e) >= least:
                close(cdf(e, **k), cum, what + ': cdf, ' + kind)
                close(cdf(far, **k), np.array([0., 0., 1., 1.]),
                      what + ': cdf outside, ' + kind)
        # Gaussian kernels: one for each bin, as wide as the bin
        for bw in ({}, {'bandwidth': 0.5}):
            b = bw.get('bandwidth', 1.)
            u = (x[:, None] - mid)/(w*b)
            close(mc.cdf(x, **bw),
                  (d*w*(1 + scipy.special.erf(u/math.sqrt(2)))/2).sum(axis=-1),
                  what + ': kde cdf')
            close(mc.pdf(x, **bw)*a, a*(d/b*np.exp(-u*u/2)
                                        / math.sqrt(2*math.pi)).sum(axis=-1),
                  what + ': kde pdf')
        if self.reps > 1:
            # many points at once
            y = np.tile(x, 1 + 1200//len(x))
            for f in (mc.pdf, mc.cdf, pdf, cdf):
                for k in ({}, {'bandwidth': 0.5}):
                    close(f(y, **k).reshape(-1, len(x)),
                          np.broadcast_to(f(x, **k), (len(y)//len(x), len(x))),
                          what + ': pdf or cdf at many points')
        big = 40*(e[-1] - e[0])
        close(mc.cdf(np.array([e[0] - big, e[-1] + big])), np.array([0., 1.]),
              what + ': kde cdf far away')
        close(mc.cdf(z), mc.cdf(z.ravel()).reshape(2, 2), what + ': kde, 2d')
        y = x.copy()
        for z in (mc.pdf(y), mc.cdf(y), pdf(y), cdf(y)):
            close(y, x, what + ': points where values are asked', exact=True)
        for z, kept in asked:
            close(z, kept, what + ': points where values are asked', exact=True)
        expect_error(lambda: mc.pdf(0., method='none'), (ValueError,),
                     what + ': unknown method')

    def check(self, k):
        what = 'after operation {}'.format(k + 1)
        if self.mc is None:
            return
        if self.paths == 0:
            need(self.mc.paths == 0, what, ': paths of an empty instance',
                 self.mc.paths)
            expect_error(self.mc.histogram, (ValueError,),
                         what + ': histogram of an empty instance')
            expect_error(lambda: self.mc.vshape, (ValueError,),
                         what + ': vshape of an empty instance')
            need(isinstance(repr(self.mc), str), 'repr')
            return
        sh = self.rec['vshape']
        self.check_view(self.mc, sh, list(range(int(np.prod(sh, dtype=int)))),
                        what)
        for j, v in enumerate(self.views):
            w = self.rec['views'][j]
            self.check_view(v, w['shape'], w['pos'],
                            what + ', view {}'.format(j + 1))

    def run(self):
        rec = self.rec
        if self.h[19] % 2:
            self.mc = sdepy.montecarlo(**self.kw)
            self.check(-1)
        for k, op in enumerate(rec['log']):
            if op['op'] == 'update':
                self.update(op['b'], k)
            else:
                src = self.mc if op['of'] == 0 else self.views[op['of'] - 1]
                integer = (int, np.int64)[self.h[18] % 2]
                self.views.append(src[index(op['idx'], integer)])
            if rec['stats'][k]:
                self.stats = rec['stats'][k]
            self.n = rec['paths'][k]
            self.paths = self.n*self.reps
            self.check(k)
            if self.mc is not None and self.h[18] % 4 == 0:
                self.bad_update()
                self.check(k)


def index(idx, integer=int):
    """A Python index from a list of index elements."""
    def el(e):
        none = lambda v: None if v == 99 else v  # noqa
        if e['k'] == 'int':
            return integer(e['a'])
        if e['k'] == 'slice':
            return slice(none(e['a']), none(e['b']),
                         None if e['s'] == 1 else e['s'])
        return Ellipsis if e['k'] == 'dots' else None
    t = tuple(el(e) for e in idx)
    return t[0] if len(t) == 1 else t


def replay(rec):
    Run(rec).run()
