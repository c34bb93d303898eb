"""Replay of behaviours of specs/ProcInterp.tla: evaluation of processes at
any time, increments, rebasing, piecewise constant processes."""
import hashlib
import json

from .core import need, close, num, import_sdepy

sdepy = import_sdepy()
import numpy as np  # noqa


def write(p, e, how, what, unit=1):
    f, i = e['s']['v'][0], e['ds'] - 1
    if e['op'] == 'shift':
        f = f*unit
    if e['op'] == 'scale':
        if how % 4 == 0:
            p *= f
        elif how % 4 == 1:
            p[...] = f*p.x
        elif how % 4 == 2:
            np.multiply(p, f, out=p)
        else:
            p.x[:] *= f
    elif how % 4 == 0:
        p[i] += f
    elif how % 4 == 1:
        q = p['t', i]
        q += f
    elif how % 4 == 2:
        q = p['t', i:i+1]
        q[...] = q.x + f
    else:
        p.x[i] += f


def replay(rec):
    h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).digest()
    ini = rec['init']
    v = tuple(ini['v'])
    step = (1, 0.5, 1, 0.25, 3)[h[0] % 5]
    off = (0, 0, 10, -7)[h[1] % 4]
    tr = lambda s: np.asarray(s)*step + off  # noqa
    kinds = {e['kind'] for e in rec['log'] if e['op'] != 'kind'} \
        | {e['kind'] for e in rec['log']}
    x0 = np.array([[num(c) for c in row] for row in rec['x0']])
    x0 = x0.reshape((len(ini['t']),) + v)
    mode = ini['mode']
    # values of integer type are stored, but not interpolated
    exact = mode != 'no' and all(e['op'] != 'rebase' for e in rec['log'])
    exact = exact or (kinds <= {'nearest', 'previous', 'next', 'zero'})
    dtype = int if exact and h[2] % 3 == 0 else float
    x0 = x0.astype(dtype)
    # complex values, multiples of the same: all operations are linear
    unit = 1. if h[19] % 4 else 2. - 1.5j
    if unit != 1.:
        x0 = x0*unit
    # many identical paths
    reps = {0: 701, 1: 1300}.get(h[18] % 24, 1)
    x0 = np.repeat(x0, reps, axis=-1)
    v = v[:-1] + (v[-1]*reps,)
    # many times asked
    many = {0: 67, 1: 1201}.get(h[18] // 24 % 8, 1)
    many = 1 if many*reps > 2000 or ini['t'][1:] == [] else many
    t0 = tr(ini['t'])
    nodes = slice(None)
    if many > 1 and mode == 'no' and kinds <= {'default', 'linear'} and \
            not any(e['op'] == 'shift' for e in rec['log']):
        # a long timeline, with linear values in between
        fine = np.union1d(t0, np.linspace(t0[0], t0[-1], 1500))
        nodes = np.searchsorted(fine, t0)
        k = np.clip(np.searchsorted(t0, fine, side='right') - 1,
                    0, len(t0) - 2)
        w = ((fine - t0[k])/(t0[k+1] - t0[k])).reshape((-1,) + (1,)*len(v))
        x0, t0 = x0[k]*(1 - w) + x0[k+1]*w, fine
    if h[3] % 3 == 0:
        t0 = t0.tolist()
    kw = {'x': x0}
    if v[-1] == 1 and h[4] % 2:
        kw = {'v': x0[..., 0]}
    if mode == 'no':
        p = sdepy.process(t0, **kw)
    else:
        if not (mode == 'mid' and h[5] % 2):
            kw['mode'] = mode
        p = sdepy.piecewise(t0, **kw)
    shape = v
    other = None

    def rows(e):
        x = np.array([[num(c) for c in row] for row in e['out']])
        x = x.reshape((-1,) + shape[:-1] + (shape[-1]//reps,))
        return np.repeat(x, reps, axis=-1)*unit
    for n, e in enumerate(rec['log']):
        what = 'operation {} ({} {})'.format(n + 1, e['op'], e['kind'])
        k = {} if e['kind'] == 'default' and h[6] % 2 else \
            {'kind': None if e['kind'] == 'default' else e['kind']}
        xold, told = p.x.copy(), p.t.copy()
        if e['op'] == 'kind':
            p.interp_kind = e['kind']
            need(sdepy.process.interp_kind == 'linear', what,
                 ': class default changed')
            continue
        if e['op'] == 'back':
            (p, mode, nodes, kept), other = \
                other, (p, mode, nodes, p.x.copy())
            close(p.x, kept, what + ': values of the other process',
                  exact=True)
            if mode == 'no':
                close(p.x[nodes], rows(e),
                      what + ': values', rtol=1e-12, atol=1e-12)
            continue
        if e['op'] in ('scale', 'shift'):
            write(p, e, h[7 + n], what, unit)
            if mode == 'no':
                close(p.x[nodes], rows(e),
                      what + ': values', rtol=1e-12, atol=1e-12)
            else:
                close(p.x, xold*e['s']['v'][0],
                      what + ': values', rtol=1e-12, atol=1e-12)
            continue
        s = tr(np.array(e['s']['v'])).reshape(e['s']['shape'])
        ssh = tuple(e['s']['shape'])
        out = rows(e).reshape(ssh + shape)
        if many > 1 and ssh and e['op'] != 'rebase':
            s, out = np.repeat(s, many, axis=0), np.repeat(out, many, axis=0)
            ssh = s.shape
        if h[7 + n] % 3 == 0:
            s = s.tolist()
        elif h[7 + n] % 3 == 1:
            s = np.asarray(s, dtype=float)
        if e['op'] == 'call' and h[13 + n % 4] % 4 == 0:
            # before and after everything
            s = np.array(s, dtype=float)
            s[s < p.t[0]], s[s > p.t[-1]] = -np.inf, np.inf
        given = np.array(s)
        if e['op'] == 'call':
            r = p(s, **k)
            r2 = p.interp(**k)(s)
        elif e['op'] == 'increment':
            ds = e['ds']*step
            if ssh and h[12 + n] % 3 == 0:
                ds = np.full(ssh, ds)
            steps = np.array(ds)
            r = r2 = p(s, ds, **k)
            need(np.array_equal(ds, steps), what, ': steps changed to', ds)
        else:
            q = p.rebase(s, **k)
            need(type(q) is sdepy.process, what, ': result is a', type(q))
            close(q.t, np.asarray(s, float).reshape(-1), what + ': timeline',
                  exact=True)
            need(q.interp_kind == 'linear', what, ': interp_kind',
                 q.interp_kind)
            out = out.reshape((len(e['s']['v']),) + shape)
            r = r2 = q.x
        need(np.array_equal(s, given), what, ': times changed to', s)
        need(type(r) is np.ndarray, what, ': result is a', type(r))
        close(r, out, what, rtol=1e-11, atol=1e-10)
        close(r2, r, what + ': interp()', exact=True)
        if e['op'] != 'rebase' and r.flags.writeable and h[17 + n] % 2:
            r[...] = 55  # the caller's own
        close(p.x, xold, what + ': values of the process', exact=True)
        close(p.t, told, what + ': timeline of the process', exact=True)
        if e['op'] == 'rebase':
            other = (p, mode, nodes, p.x.copy())
            p, mode, nodes = q, 'no', slice(None)


