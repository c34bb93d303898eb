"""Replay of behaviours of specs/ProcArith.tla and ProcCreate.tla."""
import hashlib
import json
import operator

from .core import need, close, expect_error, import_sdepy

sdepy = import_sdepy()
import numpy as np  # noqa

fma = np.frompyfunc(lambda a, b, c: a*b + c, 3, 1)
OPS = {
    'neg': (operator.neg, np.negative),
    'square': (np.square, lambda a: np.float_power(a, 2)),
    'sub': (operator.sub, np.subtract),
    'add': (operator.add, np.add),
    'mul': (operator.mul, np.multiply),
    'max': (np.maximum, np.fmax),
    'lt': (operator.lt, np.less),
    'clip': (np.core.umath.clip,)*2,
    'fma': (fma,)*2,
}
INPLACE = {'add': (operator.iadd, lambda a, b: np.add(a, b, out=a))}


def digest(rec):
    return hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).digest()


# actual times: as they are, integers, close to each other, tiny, large
TIMEMAPS = (lambda k: np.array(k, dtype=float),
            lambda k: np.array(k, dtype=int),
            lambda k: 2.**20 + np.array(k)*2.**-30,
            lambda k: np.array(k)*2.**-40,
            lambda k: -7. + 2.**30*np.array(k))


def filled(data, shape, dtype, reps, unit=1.):
    """An array, with many identical paths in the place of each, if there
    are more than one."""
    x = np.array(data, dtype=dtype).reshape(shape)
    if unit != 1.:
        x = x*unit
    return np.repeat(x, reps, axis=-1) if shape and shape[-1] > 1 else x


def make(lf, dtype, mode, tmap, reps, unit):
    x = filled(lf['data'], lf['shape'], dtype, reps, unit)
    if lf['kind'] == 'arr':
        if not lf['shape']:
            return (x, x.item(), x[()])[mode % 3]
        return x if mode % 2 else np.asfortranarray(x)
    t = tmap(lf['t'])
    if lf['kind'] == 'lost':
        # an array operation leaves it with a different first axis
        p = sdepy.process(t, x=x.reshape(len(t), -1))
        q = p.reshape(x.shape)
        need(q.t is None, 'reshaped process has a timeline')
        return q
    return sdepy.process(t, x=x)


def replay(rec):
    h = digest(rec)
    leaves = {}
    tmap = TIMEMAPS[h[7] % len(TIMEMAPS)]
    reps = {0: 701, 1: 1300}.get(h[18] % 24, 1)
    # complex values, multiples of the same number if operations are linear
    unit = 2. - 1.5j if h[18] % 24 > 1 and h[19] % 3 == 0 and \
        all(o['op'] in ('neg', 'sub', 'add') for o in rec['log']) else 1.
    for i, lf in enumerate(rec['leaves']):
        dtype = (float, int, float, float)[h[i % 8] % 4]
        if any(o['inplace'] for o in rec['log']):
            dtype = float
        leaves[lf['k']] = make(lf, dtype, h[8 + i % 4], tmap, reps, unit)
    times = {k: (p.t, None if p.t is None else p.t.copy())
             for k, p in leaves.items() if isinstance(p, sdepy.process)}
    current = {lf['k']: lf['data'] for lf in rec['leaves']}
    res = []
    for n, op in enumerate(rec['log']):
        what = 'operation {} ({})'.format(n + 1, op['op'])
        args = [leaves[k] if k > 0 else res[-k - 1] for k in op['on']]
        old = [np.array(a, copy=True) for a in args]
        fns = INPLACE[op['op']] if op['inplace'] else OPS[op['op']]
        fn = fns[h[12 + n] % len(fns)]
        exp = rec['res'][n]
        if not op['ok']:
            expect_error(lambda: fn(*args), (Exception,), what)
            for a, b in zip(args, old):
                close(a, b, what + ', which failed: operand', exact=True)
            res.append(None)
            continue
        r = fn(*args)
        if exp['kind'] == 'proc':
            need(type(r) is sdepy.process, what, ': result is a',
                 type(r).__name__)
            close(r.t, tmap(exp['t']), what + ': timeline',
                  exact=True)
            owners = [a.t for a in args if isinstance(a, sdepy.process)]
            need(any(r.t is t for t in owners), what,
                 ': timeline is not a reference')
        else:
            need(not isinstance(r, sdepy.process), what, ': is a process')
        e = filled(exp['data'], exp['shape'], float, reps, unit)
        close(np.asarray(r, dtype=None if unit != 1. else float), e, what + ': values', exact=True)
        if op['inplace']:
            need(np.shares_memory(np.asarray(r), np.asarray(args[0])), what,
                 ': result does not share memory with the operand')
            close(np.asarray(args[0]), e, what + ': operand', exact=True)
        for j, (a, b) in enumerate(zip(args, old)):
            if not (op['inplace'] and a is args[0]):
                close(a, b, what + ': operand {} afterwards'.format(j + 1),
                      exact=True)
        if exp['kind'] == 'proc' and op['op'] in ('sub', 'mul') and unit == 1.:
            for o, y in zip(np.divmod(r, 3.), np.divmod(e, 3.)):
                need(isinstance(o, sdepy.process) and o.t is r.t, what,
                     ': function with two results')
                close(o.x, y, what + ': function with two results', exact=True)
        if r is not None and op['op'] == 'fma':
            r = r.astype(float)
        res.append(r)
    for lf in rec['leaves']:
        close(np.asarray(leaves[lf['k']], None if unit != 1. else float),
              filled(lf['end'], lf['shape'], float, reps, unit),
              'leaf {} at the end'.format(lf['k']), exact=True)
    for k, (t, c) in times.items():
        need(leaves[k].t is t, 'timeline of leaf', k, 'replaced')
        if t is not None:
            close(t, c, 'timeline of leaf {}'.format(k), exact=True)


def replay_create(rec):
    """One call of the constructor of process."""
    h = digest(rec)
    P = sdepy.process

    def data(sh):
        n = int(np.prod(sh, dtype=int))
        return np.arange(1, n + 1, dtype=float).reshape(sh)
    t = np.array([3.*(i + 1) for i in range(int(np.prod(rec['t'], dtype=int)))]
                 ).reshape(rec['t'])
    dtype = (None, float, int, None)[h[0] % 4]
    kw = {}
    for k in 'xvc':
        if rec[k]['given']:
            d = data(rec[k]['shape'])
            kw[k] = d.tolist() if h[1] % 3 == 0 else d
    ta = t.tolist() if h[2] % 3 == 0 else t
    if dtype is not None:
        kw['dtype'] = dtype
    if not rec['ok']:
        expect_error(lambda: P(ta, **kw), (ValueError, TypeError),
                     'process')
        return
    p = P(ta, **kw)
    need(type(p) is P, 'result is a', type(p))
    close(p.t, t.reshape(-1), 'timeline', exact=True)
    e = np.array(rec['data'], float).reshape(rec['shape'])
    close(p.x.astype(float), e, 'values', exact=True)
    if dtype is not None:
        need(p.dtype == dtype, 'dtype', p.dtype)
    need(type(p.x) is np.ndarray and np.shares_memory(p.x, np.asarray(p)),
         'x is not a plain view')
    need(p.paths == rec['shape'][-1], 'paths', p.paths)
    need(tuple(p.vshape) == tuple(rec['shape'][1:-1]), 'vshape', p.vshape)
    n = len(rec['shape'])
    close(p.tx, t.reshape((-1,) + (1,)*(n - 1)), 'tx', exact=True)
    dt = np.diff(t.reshape(-1))
    close(p.dt, dt, 'dt', exact=True)
    close(p.dtx, dt.reshape((-1,) + (1,)*(n - 1)), 'dtx', exact=True)
    # a reference is stored, not a copy, if possible
    if isinstance(ta, np.ndarray) and rec['t']:
        need(np.shares_memory(p.t, ta), 'timeline was copied')
    for k in 'xv':
        if isinstance(kw.get(k), np.ndarray) and dtype is not int:
            need(np.shares_memory(p.x, kw[k]), k, 'was copied')
