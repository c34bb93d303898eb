"""Replay of behaviours of specs/ProcMem.tla: processes and arrays derived
from a process, writing through them, and the memory they share."""
import hashlib
import json

from .core import need, close, expect_error, import_sdepy
from .montecarlo import index

sdepy = import_sdepy()
import numpy as np  # noqa

ERRORS = (ValueError, IndexError)


class sub_process(sdepy.process):
    pass


class Run:

    def __init__(self, rec):
        self.rec = rec
        self.h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).digest()
        sh = rec['shape']
        # integers are also those found by numpy
        self.integer = (int, int, np.int64, np.int32)[self.h[8] % 4]
        self.cls = sub_process if self.h[0] % 4 == 0 else sdepy.process
        self.dtype = (float, int, np.float32)[self.h[1] % 3]
        x = (10 + np.arange(1, int(np.prod(sh)) + 1)).astype(self.dtype)
        t = np.arange(1., sh[0] + 1)
        self.objs = [self.cls(t, x=x.reshape(sh))]
        # cells of memory, as the specification tells
        nb = len(rec['bufs'])
        self.bufs = [None]*nb
        self.bufs[0] = list(range(11, 11 + x.size))
        self.bufs[1] = list(range(1, sh[0] + 1))

    def list_key(self, ps, n):
        m = self.h[2] % 3
        if m == 0 and sorted(set(ps)) == ps and max(ps) < n:
            return np.isin(np.arange(n), ps)
        return list(ps) if m == 1 else np.array(ps)

    def key(self, e, p):
        op, idx = e['op'], e['idx']
        if e['list']:
            ax = {'t': 0, 'v': 1, 'p': -1}[op]
            ax = min(ax, p.ndim - 1)
            return (op, self.list_key(idx, p.shape[ax]))
        if op in 'tp':
            if not idx:
                return op if self.h[3] % 2 else (op,)
            return (op, index(idx, self.integer))
        k = index(idx, self.integer)
        if not idx:
            return op if self.h[3] % 2 else (op, ())
        if isinstance(k, tuple) and self.h[4] % 2:
            return (op,) + k       # p['v', i, j] as well as p['v', (i, j)]
        return (op, k)

    def derive(self, e, n):
        p, op = self.objs[e['of'] - 1], e['op']
        if op in ('t', 'v', 'p'):
            key = self.key(e, p)
            return lambda: p[key]
        if op == 'x':
            k = index(e['idx'], self.integer)
            if not e['idx'] and isinstance(p, sdepy.process) and self.h[5] % 2:
                return lambda: p.x
            return lambda: p[k]
        if op == 'shapeas':
            v = tuple(e['idx'])
            if self.h[6] % 2:
                q = sdepy.process([0., 1.], x=np.zeros((2,) + v + (3,)))
                return lambda: p.shapeas(q)
            return lambda: p.shapeas(v)
        kw = {'order': 'F'} if self.h[7] % 5 == 0 else {}
        return lambda: getattr(p, op)(**kw)

    def cells(self, o):
        return [self.bufs[o['b'] - 1][i - 1] for i in o['p']]

    def times(self, o):
        return [self.bufs[o['tb'] - 1][i - 1] for i in o['tp']]

    def check(self, what):
        for n, p in enumerate(self.objs):
            o = self.rec['objs'][n]
            w = '{}: object {}'.format(what, n + 1)
            e = np.array(self.cells(o), float).reshape(o['shape'])
            need(p.dtype == self.dtype, w, 'dtype', p.dtype)
            close(np.asarray(p, float), e, w + ' values', exact=True)
            if o['kind'] == 'proc':
                need(type(p) is self.cls, w, 'is a', type(p).__name__)
                close(p.t, np.array(self.times(o), float), w + ' timeline',
                      exact=True)
                need(tuple(p.vshape) == tuple(o['shape'][1:-1]), w, 'vshape',
                     p.vshape)
                need(p.paths == o['shape'][-1], w, 'paths', p.paths)
            else:
                need(type(p) is np.ndarray, w, 'is a', type(p).__name__)

    @staticmethod
    def some(cells, few):
        n = len(cells)
        return range(0, n, 1 if n < few else 2 if n < 100 else n//20)

    def write(self, n, k, v):
        p = self.objs[n]
        o = self.rec['objs'][n]
        at = tuple(int(i) for i in np.unravel_index(k, tuple(o['shape'])))
        p[at] = v
        self.bufs[o['b'] - 1][o['p'][k] - 1] = v

    def write_time(self, n, k, v):
        o = self.rec['objs'][n]
        self.objs[n].t[k] = v
        self.bufs[o['tb'] - 1][o['tp'][k] - 1] = v

    def run(self):
        for n, e in enumerate(self.rec['log']):
            what = 'operation {} ({})'.format(n + 1, e['op'])
            if e['op'] == 'write':
                self.write(e['of'] - 1, e['at'] - 1, e['val'])
            elif e['op'] == 'writet':
                self.write_time(e['of'] - 1, e['at'] - 1, e['val'])
            else:
                fn = self.derive(e, n)
                if e['ok']:
                    p = fn()
                    o = self.rec['objs'][len(self.objs)]
                    self.objs.append(p)
                    # contents of new memory
                    for b, v in ((o['b'], np.asarray(p)),
                                 (o['tb'], getattr(p, 't', None))):
                        if o['kind'] == 'proc' and self.bufs[b - 1] is None:
                            self.bufs[b - 1] = self.fresh(o, b, e)
                else:
                    expect_error(fn, ERRORS, what)
                    self.check(what + ', which failed')
            self.check(what)
        # in the end, which cells are shared?
        v = 1000
        for n in range(len(self.objs)):
            o = self.rec['objs'][n]
            for k in self.some(o['p'], 9):
                v += 1
                self.write(n, k, v)
            self.check('after writing through object {}'.format(n + 1))
        for n in range(len(self.objs)):
            o = self.rec['objs'][n]
            if o['kind'] == 'proc':
                for k in self.some(o['tp'], 99):
                    v += 1
                    self.write_time(n, k, v)
                self.check('after writing the timeline of object {}'
                           .format(n + 1))
        p = self.objs[0]
        expect_error(lambda: p['z', 0], (IndexError,), 'unknown kind of index')

    def fresh(self, o, b, e):
        """Initial contents of a new buffer: copied from the source, at the
        positions selected."""
        s = self.rec['objs'][e['of'] - 1]
        if b == o['b']:
            x = np.array(self.cells(s)).reshape(s['shape'])
            if e['list']:
                ax = {'t': 0, 'v': 1, 'p': -1}[e['op']]
                x = np.take(x, e['idx'], axis=ax)
            return [int(v) for v in x.ravel()]
        t = self.times(s)
        return [t[i] for i in e['idx']] if e['list'] else list(t)


def replay(rec):
    Run(rec).run()
