"""Replay of behaviours of specs/ProcCalc.tla: summaries and time calculus
of processes, characteristic and distribution functions."""
import hashlib
import json
import math

from .core import need, close, num, import_sdepy

sdepy = import_sdepy()
import numpy as np  # noqa


def values(z):
    return np.array([num(x) for x in z['x']]).reshape(
        (len(z['t']),) + tuple(z['v']) + (z['n'],))


def replay(rec):
    h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).digest()
    ini = rec['init']
    dtype = (float, int, np.int32, float, np.float32, int)[h[0] % 6]
    if any(e['ts']['given'] for e in rec['log']):
        # interpolation of integer values yields integers
        dtype = float
    tol = 1e-4 if dtype is np.float32 else 1e-10
    x = np.array(rec['x0'], dtype=dtype).reshape(
        (len(ini['t']),) + tuple(ini['v']) + (ini['n'],))
    t = np.array(ini['t'], dtype=int if h[1] % 3 == 0 else float)
    unit = 1.
    if t.dtype.kind == 'f' and h[1] % 3 == 1 and \
            all(e['op'] in ('tint', 'tder', 'sum', 'mean', 'min', 'max')
                for e in rec['log']):
        unit = 0.25   # of time
    # many identical paths
    reps = {0: 701, 1: 1300}.get(h[9] % 16, 1)
    if dtype in (np.float32, np.int32):
        reps = 1
    # many points at once
    many = {0: 1300, 1: 130}.get(h[10] % 12, 1)
    if many*reps*x.size > 2*10**6:
        many = 1
    x = np.repeat(x, reps, axis=-1)
    # complex values, multiples of the same: these operations are linear
    comp = 1
    if h[11] % 4 == 0 and dtype is float and rec['log'] and all(
            e['op'] in ('sum', 'mean', 'tdiff', 'tder', 'tint', 'tcumsum')
            for e in rec['log']):
        comp = 2. - 1.5j
        x = x*comp
    p = sdepy.process(t*unit if unit != 1 else t, x=x)
    power = 0         # of the unit of time, in the values
    for n, e in enumerate(rec['log']):
        op, what = e['op'], 'operation {} ({} {})'.format(n + 1, e['op'],
                                                          e['ax'])
        old, told = p.x.copy(), p.t.copy()
        kw = {}
        if op in ('min', 'max', 'sum', 'mean', 'var', 'std'):
            if e['ddof']:
                kw['ddof'] = e['ddof']
            exp = values(e['res'])*comp
            if op == 'std':
                exp = np.sqrt(exp)
            if op not in ('min', 'max') and h[2] % 3 == 0:
                kw['dtype'] = (float, np.float32, complex, 'f8')[
                    (h[2]//3 + n) % 4 if power == 0 else 0]
                if kw['dtype'] is complex and (
                        op in ('var', 'std') or e is not rec['log'][-1]):
                    kw['dtype'] = float
                if comp != 1:
                    kw['dtype'] = complex
                if kw['dtype'] is np.float32:
                    tol = 1e-4
            out = None
            if h[3] % 5 == 0 and p.dtype == float:
                out = kw['out'] = np.full(exp.shape, np.nan, kw.get('dtype', float))
            if e['ax'] != 'p' or op in ('min', 'max', 'mean'):
                scale = 1
            elif op == 'sum':
                scale = reps
            else:
                k = p.paths//reps - e['ddof']
                scale = k*reps/(p.paths - e['ddof'])
                scale = math.sqrt(scale) if op == 'std' else scale
            if e['ax'] != 'p':
                exp = np.repeat(exp, reps, axis=-1)
                if out is not None:
                    out = kw['out'] = np.repeat(out, reps, axis=-1)
            else:
                exp = exp*scale
            r = getattr(p, e['ax'] + op)(**kw)
            if e['ax'] == 'p' and reps > 1 and op != 'std':
                close(r.x/unit**power, exp, what, rtol=tol*10, atol=tol*1000)
                r = sdepy.process(r.t, x=(exp/scale*unit**power).astype(r.dtype))
                exp, reps = exp/scale, 1
                out = None
            if 'dtype' in kw:
                need(r.dtype == np.dtype(kw['dtype']), what, 'dtype', kw['dtype'], 'result has', r.dtype)
            if out is not None:
                close(out, r.x, what + ': out', exact=True)
        elif op in ('tdiff', 'tder', 'tint', 'tcumsum'):
            if op == 'tdiff':
                dt_exp = {50: 0.5, -1: -1.}.get(e['exp'], e['exp'])
                kw = dict(dt_exp=dt_exp, fwd=e['fwd'])
                if e['fwd'] and h[4] % 2:
                    del kw['fwd']
                if not dt_exp and h[5] % 2:
                    del kw['dt_exp']
            exp = np.repeat(values(e['res'])*comp, reps, axis=-1)
            out = None
            if op == 'tcumsum' and h[5] % 3:
                d = kw['dtype'] = (float, np.float32)[power == 0 and h[5] % 3 - 1]
                if comp != 1:
                    d = kw['dtype'] = complex
                if d is np.float32:
                    tol = 1e-4
                if h[5] % 2:
                    out = kw['out'] = np.full(exp.shape, np.nan, d)
            r = getattr(p, op)(**kw)
            if out is not None:
                close(out, r.x, what + ': out', exact=True)
            if 'dtype' in kw:
                need(r.dtype == kw['dtype'], what, 'dtype', kw, 'result has', r.dtype)
            power += {'tder': -1, 'tint': 1}.get(op, 0)
        else:
            ts = np.array(e['ts']['v'])
            if e['ts']['given']:
                ts = ts.reshape(e['ts']['shape'])
            us = np.array(e['us']['v'], float).reshape(e['us']['shape'])
            us = us*math.pi/2 if op == 'chf' else us/2
            if many > 1:
                us = np.repeat(us[..., None], many, axis=-1)
            if op == 'cdf' and np.all(us == np.rint(us)) and h[6] % 2:
                us = us.astype(int)
            if e['ts']['given']:
                a = (ts.tolist() if h[7] % 2 else ts, us)
                ksh = tuple(e['ts']['shape'])
            else:
                a = (us,) if h[7] % 2 else (None, us)
                ksh = p.t.shape
            ua = a[:-1] + (us.tolist() if h[8] % 2 else us,)
            r = getattr(p, op)(*ua)
            if op == 'chf':
                exp = np.array([[[complex(num(c[0]), num(c[1])) for c in row]
                                 for row in at] for at in e['out']])
            else:
                exp = np.array([[[num(c) for c in row] for row in at]
                                for at in e['out']])
            exp = exp.reshape(ksh + tuple(e['us']['shape']) + p.vshape)
            if many > 1:
                exp = np.repeat(np.expand_dims(exp, len(ksh) + us.ndim - 1),
                                us.shape[-1], axis=len(ksh) + us.ndim - 1)
            need(not isinstance(r, sdepy.process), what, ': is a process')
            if op == 'cdf' and any(f['op'] in ('mean', 'var', 'std', 'tder') or
                                   f['op'] == 'tdiff' and f['exp']
                                   for f in rec['log'][:n]):
                # values rounded: any count goes in case of a tie
                lo, hi = (getattr(p, op)(*a[:-1], us + d)
                          for d in (-1e-9, 1e-9))
                need(np.all(lo <= r) and np.all(r <= hi), what, 'is', r,
                     'though between', lo, 'and', hi)
                r = np.where((lo < exp) & (exp <= hi), exp, r)
            close(r, exp, what, rtol=tol, atol=tol*100)
            r = None
        if r is not None:
            need(type(r) is sdepy.process, what, ': result is a',
                 type(r).__name__)
            f = float(unit)**power
            close(r.t, np.array(e['res']['t'])*unit, what + ': timeline',
                  exact=True)
            close(np.asarray(r.x, complex if r.dtype.kind == 'c' else float)/f, exp, what, rtol=tol, atol=tol*100)
        close(p.x, old, what + ': values of the process', exact=True)
        close(p.t, told, what + ': timeline of the process', exact=True)
        if r is not None and op != 'std':
            p = r


