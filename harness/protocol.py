"""Binding of specs/SourceProtocol.tla to source setup in SDEs and sources."""
import numpy as np
from .core import Mismatch, need, close, import_sdepy
from .euler import Layout


def z_value(s, k):
    return s*(k + 1) + (3*(s - 2) if s > 2 else 0)


def candidate(sp, c):
    cand = c['cand']
    kind, paths, vshape = cand['kind'], cand['paths'], tuple(cand['vshape'])
    full = vshape + (paths,)
    k = np.arange(1, int(np.prod(full)) + 1).reshape(full)
    if kind == 'process':
        t = np.arange(-3, 8)
        return sp.process(t=t, x=np.array([z_value(s, k) for s in t], float))
    if kind == 'memory':
        class Mem(sp.true_source):
            def init(self):
                return 1.*z_value(0, k)

            def new_outside(self, z, t, s):
                return 1.*z_value(s, k)

            def new_inside(self, z1, z2, t1, t2, s):
                return 1.*z_value(s, k)
        return Mem(paths=paths, vshape=vshape)

    def call(self, t, dt):
        return 1.*(t + 10*dt + k)
    ns = dict(__call__=call, paths=paths, vshape=vshape)
    if kind == 'nocall':
        del ns['__call__']
    if kind == 'nopaths':
        del ns['paths']
    if kind == 'novshape':
        del ns['vshape']
    return type('Cand', (), ns)()


def build(sp, c, **kw):
    slot = c['slot']
    vshape = tuple(c['vshape'])
    if c['user'] == 'cpoisson':
        return sp.cpoisson_source(paths=c['paths'], vshape=vshape, **kw)
    if c['user'] == 'hw':
        kw = {k: v for k, v in kw.items() if k not in ('lam', 'ptype')}
        return sp.hull_white_process(paths=c['paths'], vshape=vshape, x0=0.,
                                     theta=0., k=0., sigma=1., factors=3, **kw)
    if c['user'] == 'sde':
        class E(sp.SDE, sp.integrator):
            sources = {'dt', slot}

            def sde(self, t, x):
                return {slot: 1.}
    else:
        class E(sp.SDEs, sp.integrator):
            q = 2
            addaxis = c['user'] == 'sdes_axis'
            sources = {'dt', slot}

            def sde(self, t, x, y):
                return {slot: 1.}, {slot: 1.}
    return E(paths=c['paths'], vshape=vshape, x0=0., **kw)


def get_source(obj, c):
    return obj.dn if c['user'] == 'cpoisson' else obj.sources[c['slot']]


class Rec:
    made = []

    def __init__(self, **kw):
        self.kw = kw
        self.paths, self.vshape = kw['paths'], kw['vshape']
        Rec.made.append(self)

    def __call__(self, t, dt):
        return np.zeros(tuple(self.vshape) + (self.paths,))


def params_for(sp, c, rng):
    slot = c['slot']
    n = c['wshape'][-1] if c['wshape'] else 0
    if slot == 'dw':
        p = dict(rng=rng, dtype=np.float32)
        if n:
            p['corr'] = np.eye(n)*0.5 + 0.5
        return p
    p = dict(rng=rng, lam=2.5)
    if slot in ('dn', 'dj'):
        p['ptype'] = np.int32
    if slot == 'dj':
        p.update(dtype=np.float32, y=sp.exp_rv(a=0.25))
    if slot == 'dn_of_dj':
        p.update(ptype=np.int32)
    return p


def check_params(src, attrs, c, p, what):
    get = (lambda k: attrs[k]) if attrs is not None else (
        lambda k: getattr(src, k))
    need(get('paths') == c['paths'], what, 'paths', get('paths'))
    need(tuple(np.atleast_1d(get('vshape')).tolist()) == tuple(c['wshape']),
         what, 'vshape', get('vshape'), 'expected', c['wshape'])
    need(get('rng') is p['rng'], what, 'generator is', get('rng'))
    if 'corr' in p:
        need(np.array_equal(get('corr'), p['corr']), what, 'corr', get('corr'))
    if 'lam' in p:
        need(np.array_equal(get('lam'), p['lam']), what, 'lam', get('lam'))
    dt = p.get('dtype') if c['slot'] in ('dw', 'dj') else p['ptype']
    need(get('dtype') is dt, what, 'dtype', get('dtype'), 'expected', dt)
    if c['slot'] == 'dj':
        need(get('ptype') is p['ptype'], what, 'ptype', get('ptype'))
        need(get('y') is p['y'], what, 'y')


def replay(rec):
    sp = import_sdepy()
    c, verdict = rec['cfg'], rec['verdict']
    slot = 'dn' if c['slot'] == 'dn_of_dj' else c['slot']
    if verdict in ('default', 'instance'):
        rng = np.random.default_rng(5)
        p = params_for(sp, c, rng)
        base = dict(dw=('wiener_source', 'true_wiener_source',
                        'odd_wiener_source'),
                    dn=('poisson_source', 'true_poisson_source',
                        'even_poisson_source'),
                    dj=('cpoisson_source', 'true_cpoisson_source',
                        'even_cpoisson_source'))[slot]
        if verdict == 'default':
            for kw in ({}, {slot: None}):
                src = get_source(build(sp, c, **p, **kw), c)
                need(isinstance(src, getattr(sp, base[0])), 'default source',
                     type(src))
                check_params(src, None, c, p, 'default source')
        else:
            del Rec.made[:]
            obj = build(sp, c, **p, **{slot: Rec})
            src = get_source(obj, c)
            need(isinstance(src, Rec), 'class given, source is', type(src))
            check_params(src, src.kw, c, p, 'class given')
            # parameters left out are passed as they are documented
            src = get_source(build(sp, c, **{slot: Rec}), c)
            for k, v in dict(dw=dict(corr=None, rho=None, dtype=None),
                             dn=dict(dtype=int, lam=1.),
                             dj=dict(dn=None, ptype=int, lam=1., y=None,
                                     dtype=None))[slot].items():
                need(k in src.kw, 'class given is not told', k)
                need(src.kw[k] == v if v is not None else src.kw[k] is None,
                     'class given is told', k, src.kw[k])
            for name in base:
                cls = getattr(sp, name)
                src = get_source(build(sp, c, **p, **{slot: cls}), c)
                need(isinstance(src, cls), name, 'given, source is', type(src))
                if not name.startswith(('odd', 'even')):
                    check_params(src, None, c, p, name)
                else:
                    need(src.paths == c['paths'] and
                         src.vshape == tuple(c['wshape']) and
                         src.rng is rng, name, 'attributes')
                z = np.asarray(src(0., 1.))
                need(z.shape == tuple(c['wshape']) + (c['paths'],), name,
                     'increments shape', z.shape)
        return
    src = candidate(sp, c)
    if verdict == 'rejected':
        try:
            build(sp, c, **{slot: src})
        except ValueError:
            return
        raise Mismatch('source accepted: {} for {}'.format(c['cand'], c))
    obj = build(sp, c, **{slot: src})
    need(get_source(obj, c) is src, 'source given is not the one used')
    if c['user'] == 'cpoisson':
        return
    r = obj(np.array(c['tl'], dtype=float))
    cfull = tuple(c['cand']['vshape']) + (c['paths'],)
    wfull = tuple(c['wshape']) + (c['paths'],)
    want = np.array([np.broadcast_to(np.array(o, float).reshape(cfull), wfull)
                     for o in rec['out']])
    if c['user'] == 'hw':
        parts = [want.sum(axis=-2)]
    elif c['user'] == 'sde':
        parts = [want]
    elif c['user'] == 'sdes_axis' or c['vshape'] == []:
        parts = [want[..., e, :] for e in range(2)]
    else:
        n = c['vshape'][-1]
        parts = [want[..., e*n:(e + 1)*n, :] for e in range(2)]
    r = r if isinstance(r, tuple) else (r,)
    need(len(r) == len(parts), 'number of results', len(r))
    for a, b in zip(r, parts):
        close(np.asarray(a), b, 'result', rtol=1e-9, atol=1e-9)
