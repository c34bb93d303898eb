"""Binding of specs/EulerSDE.tla to SDE/SDEs integration."""
import json
import math
import zlib
import numpy as np
from .core import Mismatch, need, close, import_sdepy

LN2 = math.log(2.)
ZERO = -1000000    # stands for the logarithm of 0
BAD = 3000000      # stands for any value that is not finite
SCALES = (1., 1, 0.5, 0.25)      # ticks -> times
OFFSETS = (0., 0, 2., -3.)


class Grid:
    """Map between the specification's integer ticks and real times."""

    def __init__(self, variant):
        self.sc, self.off = SCALES[variant], OFFSETS[variant]
        self.int = variant == 1

    def real(self, k):
        return k*self.sc + self.off

    def tick(self, s):
        return (np.asarray(s, dtype=float) - self.off)/self.sc

    def timeline(self, ticks):
        return np.array([self.real(k) for k in ticks],
                        dtype=int if self.int else float)

    def steps(self, st, flavour):
        if st['kind'] == 'none':
            return None
        if st['kind'] == 'count':
            return st['n']
        v = [self.real(k) for k in st['times']]
        return (list, tuple, np.array)[flavour % 3](v)


SRC_A = dict(da=1, dj=2, dn=3, dw=4, zz=6, dZ=5, da10=7, da9=8)
SRC_B = dict(da=3, dj=1, dn=2, dw=1, zz=2, dZ=2, da10=3, da9=1)


class Layout:
    """Stacking of per-equation cells into the working shape."""

    def __init__(self, lay):
        self.q = lay['q']
        self.vshape = tuple(lay['vshape'])
        self.paths = lay['paths']
        self.addaxis = lay['addaxis']
        self.full = self.vshape + (self.paths,)
        self.ncells = int(np.prod(self.full))
        if self.q == 0:
            self.wshape = self.vshape
        elif self.addaxis:
            self.wshape = self.vshape + (self.q,)
        else:
            self.wshape = self.vshape[:-1] + (self.vshape[-1]*self.q,)

    def stack(self, parts):
        """list of E arrays of shape vshape+(paths,) -> wshape+(paths,)"""
        if self.q == 0:
            return parts[0]
        if self.addaxis:
            return np.stack(parts, axis=-2)
        return np.concatenate(parts, axis=-2)

    def cells(self, flat):
        return np.array(flat, dtype=float).reshape(self.full)


def make_source(ident, lay, grid, log, order='pos'):
    k = np.arange(1, lay.ncells + 1).reshape(lay.full)

    class Source:
        paths = lay.paths
        vshape = lay.wshape

        def __call__(self, t, dt):
            s = int(round(float(grid.tick(t))))
            ds = int(round(float(grid.tick(t + dt)) - s))
            need(grid.real(s) == t and grid.real(s + ds) == t + dt,
                 'source asked off the grid', t, dt)
            log.append(dict(id=ident, s=s, ds=ds))
            return lay.stack([
                ((SRC_A[ident]*s + SRC_B[ident]*ds + 3*e + 2*k) % 5 - 2)
                .astype(float) for e in range(1, max(1, lay.q) + 1)])
    return Source()


def param(sp, par, lay, grid, flavour):
    p0, p1, p2, jump = (par[k] for k in ('p0', 'p1', 'p2', 'jump'))
    kind = par['kind']
    full = lay.full
    k = np.arange(1, lay.ncells + 1).reshape(full)

    def when(tick):
        return tick if jump == 99 else 1. if tick >= jump - 0.5 else 0.

    def value(tick):
        v = p0 + p1*when(float(tick))
        return v + p2*(k % 3) if p2 else v
    if kind == 'const':
        v = value(0)
        if p2:
            return (v, v.astype(float), v.tolist())[flavour % 3]
        return (v, float(v), np.full(full, float(v)), [float(v)])[flavour % 4]
    if kind == 'callable':
        return lambda s: value(grid.tick(s))
    if kind == 'callarray':
        return lambda s: np.broadcast_to(
            value(grid.tick(s)), full if p2 else (full, (1,))[flavour % 2])
    ticks = np.array([-100., 100. if jump == 99 else jump - 0.5])
    x = [np.broadcast_to(p0 + p1*(tick if jump == 99 else n)
                         + (p2*(k % 3) if p2 else 0.),
                         full if p2 or flavour % 2 else (1,)*len(full))
         for n, tick in enumerate(ticks)]
    t = np.array([grid.real(tick) for tick in ticks])
    if jump == 99:
        return sp.process(t=t, x=np.array(x))
    return sp.piecewise(t, x=np.array(x), mode='forward')


def pick_dtype(rec, crc):
    """data type of the process, and tolerance"""
    big = max((abs(v) for r in rec['runs'] for w in r['sde'] for x in w['x']
               for v in x if v not in (ZERO, BAD)), default=0)
    big = max([big] + [abs(v) for r in rec['runs'] for o in r['out'] for x in o
                       for v in x if v not in (ZERO, BAD)])
    d = {0: np.float32, 1: complex, 2: np.longdouble, 3: float}.get(crc % 8)
    if d is np.float32:
        return (d, 1e-4) if big < (60 if rec['cfg']['log'] else 2**20) else (None, 1e-8)
    if d is complex and rec['cfg']['x0']['kind'] == 'zeros':
        d = None
    return d, 1e-8


def unit_of(cfg, dtype):
    """what the integers of the specification are multiples of"""
    return LN2 if cfg['log'] else 2. - 1.5j if dtype is complex else 1.


def build(sp, cfg, grid, flavour, log_e, log_s, extra=None, integrator=None,
          dtype=None):
    lay = Layout(cfg['layout'])
    nq = max(1, lay.q)
    unit = unit_of(cfg, dtype)
    srcs = {i: make_source(i, lay, grid, log_s)
            for i in cfg['srcs'] if i != 'dt'}
    fault = cfg['fault'] = dict(cfg['fault'])
    dt_unit = 1/grid.sc

    cells = np.arange(1, lay.ncells + 1).reshape(lay.full)

    def coefficients(t, *xs, p):
        tick = float(grid.tick(t))
        xs = [np.broadcast_to(x, lay.full)/unit for x in xs]
        sets = []
        for e in range(nq):
            d = {}
            for term in cfg['eqs'][e]:
                cx = term['cx']
                c = term['ct']*tick + term['cp']*p
                if term['c0'] == BAD:
                    c = c + np.where(cells % 2, np.inf, 1.)
                else:
                    c = c + term['c0']
                if any(cx[j] for j in range(nq)):
                    c = c + sum(cx[j]*xs[j] for j in range(nq) if cx[j])
                elif flavour % 2 == 0 and np.ndim(c) == 0:
                    c = int(c) if c == int(c) and not cfg['log'] else float(c)
                if term['id'] == 'dt':
                    c = c*dt_unit
                d[term['id']] = c*unit
            sets.append(d)
        entry = dict(s=int(round(tick)), x=[x.copy() for x in xs], p=np.array(p))
        log_e.append(entry)
        if fault['kind'] != 'none':
            if len(distinct(log_e)) == fault['at'] and not fault.get('off'):
                f = fault['kind']
                if f == 'fewer':
                    return sets[:-1] if lay.q else None
                if f == 'more':
                    return sets + [{}] if lay.q else [sets[0], {}]
                if f == 'undeclared':
                    sets[-1]['dq'] = 1.
                if f == 'notadict':
                    sets[-1] = [1.]
                if f == 'notalist':
                    return {'dt': 1.} if lay.q else 1.
        return (list, tuple)[flavour % 2](sets) if lay.q else sets[0]

    ns = dict(sources=set(cfg['srcs']), log=cfg['log'])
    if lay.q == 0:
        base = sp.SDE

        def sde(self, t, x, par=0.):
            return coefficients(t, x, p=par)
    else:
        base = sp.SDEs
        ns['q'] = lay.q
        # without values axes, the axis for equations is added anyway
        ns['addaxis'] = lay.addaxis if lay.vshape else bool(flavour % 2)
        if lay.q == 1:
            def sde(self, t, x, par=0.):
                return coefficients(t, x, p=par)
        elif lay.q == 2:
            def sde(self, t, x, y, par=0.):
                return coefficients(t, x, y, p=par)
        else:
            def sde(self, t, x, y, z, par=0.):
                return coefficients(t, x, y, z, p=par)
    ns['sde'] = sde
    kw = {}
    for i in srcs:
        if i in ('dw', 'dn', 'dj'):
            kw[i] = srcs[i]
        else:
            ns['source_' + i] = (lambda src: lambda self: src)(srcs[i])
    integ, method = integrator or (sp.integrator, None)
    if method:
        kw['method'] = method
    if dtype is not None:
        kw['dtype'] = dtype
    cls = type('eq', (type('eq_SDE', (base,), ns), integ), extra or {})
    kw['par'] = param(sp, cfg['par'], lay, grid, flavour)
    b, kind = cfg['x0']['base'], cfg['x0']['kind']
    k = np.arange(1, lay.ncells + 1).reshape(lay.full)
    if kind == 'scalar':
        x0 = float(b)
    elif kind == 'pereq':
        x0 = np.array([b + e for e in range(1, nq + 1)], dtype=float)
        if lay.q == 0:
            x0 = x0[0]
    elif kind == 'zeros':
        x0 = np.array([np.where((e + k) % 2, b + e, ZERO)
                       for e in range(1, nq + 1)], dtype=float)
        if lay.q == 0:
            x0 = x0[0]
    else:
        x0 = np.array([b + e + (2*k) % 3 for e in range(1, nq + 1)], dtype=float)
        if lay.q == 0:
            x0 = x0[0]
    x0 = 2.**x0 if cfg['log'] else x0*unit
    if flavour % 3 == 0 and np.ndim(x0) and kind == 'pereq':
        x0 = list(x0)
    if kind == 'bytime':
        # an initial condition depending on the start time
        def init(self, t, out_x):
            v = x0 + float(grid.tick(t))*unit if not cfg['log'] else \
                x0*2.**float(grid.tick(t))
            out_x[...] = lay.stack(list(v)) if lay.q else v
        cls.init = init
    else:
        kw['x0'] = x0
    obj = cls(paths=lay.paths, vshape=lay.vshape, i0=cfg['i0'] - 1,
              steps=grid.steps(cfg['steps'], flavour), **kw)
    return obj, lay, x0


def twin_integrator(sp):
    """an integrator with a method of its own, by the same recursion"""
    class twin(sp.integrator):
        def twin_next(self):
            iv = self.itervars
            (s, s1), (x, x1) = iv['sw'], iv['xw']
            A, dZ = self.A(s, x), self.dZ(s, s1 - s)
            x1[...] = x
            for i in A:
                x1[...] += A[i]*dZ[i]
    return twin


def invalid_method(sp, cfg, grid, flavour):
    try:
        build(sp, cfg, grid, flavour, [], [], integrator=(sp.integrator, 'twin'))
    except ValueError:
        return
    raise Mismatch('unknown integration method accepted')


def bare(sp, cfg, grid, flavour, log_e, log_s, dtype):
    """the equation stated by an integrator subclass, without SDE"""
    obj, lay, x0 = build(sp, cfg, grid, flavour, log_e, log_s, dtype=dtype)
    kw = {} if dtype is None else {'dtype': dtype}
    ids = sorted(cfg['srcs'])

    class alone(sp.integrator):
        def begin(self):
            iv = self.itervars
            iv['xw'][0][...] = x0

        def A(self, t, x):
            return obj.A(t, x)

        def dZ(self, t, dt):
            return {i: dt if i == 'dt' else obj.sources[i](t, dt) for i in ids}

        def store(self, i, k):
            iv = self.itervars
            need(iv['tt'][i] == iv['sw'][k], 'store called at', iv['sw'][k])
            iv['xx'][i] = iv['xw'][k]
    return alone(paths=lay.paths, xshape=lay.vshape, wshape=lay.wshape,
                 i0=obj.i0, steps=obj.steps, **kw), lay, x0


def replay(rec):
    sp = import_sdepy()
    cfg, runs = rec['cfg'], rec['runs']
    h = (sum(cfg['tl']) + 3*cfg['i0'] + 5*len(runs[0]['sde']) + len(cfg['srcs'])
         + cfg['layout']['paths'] + 2*cfg['x0']['base'] + cfg['par']['p1']
         + 7*len(runs))
    variant = h % 4
    if cfg['log'] and any(v != ZERO and abs(v) > 400 for r in runs for o in r['out']
                          for e in o for v in e):
        return
    grid = Grid(variant)
    log_e, log_s = [], []
    cfg = dict(cfg, **{k: runs[0][k] for k in ('tl', 'i0', 'steps')})
    crc = zlib.crc32(json.dumps(rec['cfg'], sort_keys=True).encode())
    kinds = crc % 4
    dtype, tol = pick_dtype(rec, crc//4)
    if kinds == 3 and not cfg['layout']['q'] and not cfg['log'] \
            and cfg['x0']['kind'] != 'bytime' and cfg['fault']['kind'] == 'none':
        obj, lay, x0 = bare(sp, cfg, grid, h//4, log_e, log_s, dtype)
    else:
        twin = kinds == 2
        if kinds == 1:
            invalid_method(sp, cfg, grid, h//4)
        obj, lay, x0 = build(
            sp, cfg, grid, h//4, log_e, log_s,
            integrator=(twin_integrator(sp), 'twin') if twin else None,
            dtype=dtype)
    x0_before = np.array(x0, copy=True)
    # a single run is done twice
    for n, run in enumerate(runs*2 if len(runs) == 1 else runs):
        tl = grid.timeline(run['tl'])
        obj.i0, obj.steps = run['i0'] - 1, grid.steps(run['steps'], h + n)
        del log_e[:], log_s[:]
        if not run['ok']:
            try:
                obj(tl)
            except (TypeError, ValueError, KeyError):
                pass
            else:
                raise Mismatch('invalid coefficients ({}) accepted'.format(
                    cfg['fault']['kind']))
            cfg['fault']['off'] = True
            continue
        r = obj(tl)
        check(sp, cfg, run, r, lay, tl, log_e, log_s, grid, n, dtype, tol)
        need(np.array_equal(np.array(x0), x0_before), 'x0 was modified')


def distinct(log):
    seen = []
    for z in log:
        if not (seen and seen[-1]['s'] == z['s'] and all(
                np.array_equal(a, b) for a, b in zip(seen[-1]['x'], z['x']))):
            seen.append(z)
    return seen


def unbounded(got, x):
    got = np.array(got)
    x = np.array(x, dtype=np.result_type(got, float))
    x[x == ZERO] = -np.inf
    bad = (x == BAD) & ~np.isfinite(got)
    x[bad] = got[bad]
    return x


def check(sp, cfg, rec, r, lay, tl, log_e, log_s, grid, run, dtype, tol):
    # evaluations of the equation, once per step. Immediate repetitions of the
    # same evaluation have no effect on the results, and are not compared
    seen, want = distinct(log_e), []
    for w in rec['sde']:
        if not want or want[-1] != w:
            want.append(w)
    steps = [w['s'] for w in want]
    need([z['s'] for z in seen] == steps, 'run', run, 'equation evaluated at',
         [z['s'] for z in seen], 'expected', steps)
    for z, w in zip(seen, want):
        close(np.array(z['x']), unbounded(z['x'], [lay.cells(c) for c in w['x']]),
              'run {} state at step from {}'.format(run, w['s']),
              rtol=tol, atol=tol)
        need(np.allclose(np.broadcast_to(z['p'], lay.full), lay.cells(w['p'])),
             'parameter at', w['s'], 'is', z['p'],
             'expected', w['p'])
    need(log_s == rec['src'], 'run', run, 'source queries', log_s, 'expected',
         rec['src'])
    res = r if lay.q else (r,)
    need(isinstance(res, (tuple, list)) and len(res) == max(1, lay.q),
         'number of results', len(res))
    for e, pr in enumerate(res):
        need(isinstance(pr, sp.process), 'result type', type(pr))
        need(np.array_equal(pr.t, tl), 'result timeline', pr.t)
        need(pr.shape == tl.shape + lay.full, 'result shape', pr.shape,
             'expected', tl.shape + lay.full)
        exp = np.array([lay.cells(o[e]) for o in rec['out']])
        if cfg['log']:
            exp = 2.**exp
        else:
            exp = np.where(exp == BAD, BAD, exp*unit_of(cfg, dtype))
        exp = unbounded(np.asarray(pr), exp)
        need(pr.dtype == np.dtype(dtype), 'result of type', pr.dtype)
        close(np.asarray(pr), exp, 'run {} equation {} result'.format(run, e + 1),
              rtol=tol, atol=tol)


# ---- what is exposed about each step ---------------------------------------

def hooks(log):
    def info_next(self):
        iv = self.itervars
        log.append({k: np.array(iv[k], copy=True) if k in ('last_x', 'new_x') else
                    dict(iv[k]) if k in ('last_A', 'last_dZ') else iv[k]
                    for k in ('last_t', 'last_dt', 'last_x', 'last_A', 'last_dZ',
                              'new_x')})

    def info_end(self):
        # still there
        iv = self.itervars
        if log and iv['steps_tt'].size > 1:
            z = log[-1]
            for k in ('last_x', 'new_x'):
                close(iv[k], z[k], 'at the end, ' + k, exact=True)
            need((iv['last_t'], iv['last_dt']) == (z['last_t'], z['last_dt']),
                 'at the end, step', iv['last_t'], iv['last_dt'])
    return dict(info_next=info_next, info_end=info_end)


def replay_diag(rec):
    sp = import_sdepy()
    cfg, runs = rec['cfg'], rec['runs']
    h = (sum(runs[0]['tl']) + 3*runs[0]['i0'] + 5*len(runs[0]['sde']) +
         len(cfg['srcs']) + cfg['layout']['paths'] + cfg['par']['p1'])
    grid = Grid(h % 4)
    log = []
    cfg = dict(cfg, **{k: runs[0][k] for k in ('tl', 'i0', 'steps')})
    obj, lay, x0 = build(sp, cfg, grid, h//4, [], [], extra=hooks(log))
    E = range(max(1, lay.q))

    def stack(parts):
        return lay.stack([lay.cells(c) for c in parts])
    for n, (run, diag) in enumerate(zip(runs, rec['diag'])):
        obj.i0, obj.steps = run['i0'] - 1, grid.steps(run['steps'], h + n)
        del log[:]
        obj(grid.timeline(run['tl']))
        need(len(log) == len(diag), 'run', n, len(log), 'steps exposed, not', len(diag))
        for z, d in zip(log, diag):
            what = 'run {} step from {} '.format(n, d['t'])
            need(z['last_t'] == grid.real(d['t']) and
                 z['last_t'] + z['last_dt'] == grid.real(d['t'] + d['dt']),
                 what, 'exposed as', z['last_t'], z['last_dt'])
            full = lay.wshape + (lay.paths,)
            need(z['last_x'].shape == full, what, 'last_x of shape', z['last_x'].shape)
            close(z['last_x'], stack(d['x']), what + 'last_x')
            close(z['new_x'], stack(d['new']), what + 'new_x')
            need(set(z['last_dZ']) == set(cfg['srcs']), what, 'last_dZ', sorted(z['last_dZ']))
            for i in d['dZ']:
                want = stack(i['v'])*(grid.sc if i['id'] == 'dt' else 1)
                close(np.broadcast_to(z['last_dZ'][i['id']], full), want,
                      what + 'last_dZ ' + i['id'])
            need(set(z['last_A']) <= set(cfg['srcs']), what, 'last_A', sorted(z['last_A']))
            for i in cfg['srcs']:
                want = stack([next((t['v'] for t in d['A'][e] if t['id'] == i),
                                   [0]*lay.ncells) for e in E])
                close(np.broadcast_to(z['last_A'].get(i, 0), full),
                      want/(grid.sc if i == 'dt' else 1), what + 'last_A ' + i)
