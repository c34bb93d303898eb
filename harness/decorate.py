"""Binding of specs/Decorate.tla to the integrate decorator."""
import numpy as np
from .core import Mismatch, Timeout, need, close, import_sdepy
from .euler import Layout, Grid, make_source

TL = (0, 1, 3, 4)


def coefficients(nq, has, t, xs, a):
    r = []
    for e, ids in enumerate(has):
        r.append({i: (0.125*a + 0.25*(e + 1)*xs[e % len(xs)] if i == 'dt'
                      else 0.25*(len(i) + ord(i[-1]) % 5) + 0.125*t + e*0.5)
                  for i in (ids if e % 2 else ids[::-1])})
    return r[0] if nq == 0 else 3. if nq == -2 else tuple(r)


def make_function(f):
    nq, has, call = f['nq'], f['has'], f['call']
    state = ['x', 'y', 'z', 'u', 'v'][:max(1, nq)]
    if call == 'zero':
        sig = ', '.join(s + '=1.' for s in ['t'] + state + ['a'])
    else:
        sig = ', '.join(['t'] + state + ['a=2.'])
    body = '    return co({}, {}, t, ({},), a)\n'.format(
        nq, has, ', '.join(state))
    if call == 'fails':
        body = ('    import numpy as np\n    if np.ndim(x) == 0:\n'
                '        raise ValueError("no test evaluation")\n') + body
    g = dict(co=coefficients)
    exec('def f({}):\n{}'.format(sig, body), g)
    return g['f']


def decorate(sp, f, d, flavour, given):
    kw = {}
    if d['q'] != -1:
        kw['q'] = d['q']
    if d['srcs'] != ['none']:
        kw['sources'] = (set, list, tuple)[flavour % 3](d['srcs'])
        given.append(kw['sources'])
    if d['log'] or flavour % 2:
        kw['log'] = d['log']
    if d['addaxis'] or flavour % 2:
        kw['addaxis'] = d['addaxis']
    if flavour % 3 == 0:
        return sp.integrate(f, **kw)
    if not kw:
        return sp.integrate(f)
    return sp.integrate(**kw)(f)


def explicit(sp, f, c, d):
    base = sp.SDE if c['q'] == 0 else sp.SDEs
    ns = dict(sources=set(c['srcs']), log=d['log'], sde=staticmethod(f))
    if c['q']:
        ns.update(q=c['q'], addaxis=d['addaxis'])
    return type('explicit', (type('explicit_SDE', (base,), ns),
                             sp.integrator), {})


def integrate(sp, cls, c, d, vshape, log, given):
    lay = Layout(dict(q=c['q'], vshape=vshape, paths=2,
                      addaxis=d['addaxis'] or vshape == ()))
    grid = Grid(0)
    kw = {i: make_source(i, lay, grid, log) for i in c['srcs'] if i != 'dt'}
    kw.update(given)
    obj = cls(paths=2, vshape=vshape, steps=(2,), i0=1, **kw)
    return obj(np.array(TL, dtype=float))


def touch(c, how):
    if isinstance(c, set):
        c.add('zz')
        if how % 2:
            c.discard('dw')
    elif isinstance(c, list):
        c.append('zz') if how % 2 else c.clear()


def check_classes(rec, classes):
    for cls, want, x in zip(classes, rec['classes'], rec['fns']):
        if cls is None:
            continue
        need(set(cls.sources) == set(want['srcs']), 'sources', cls.sources,
             'instead of', want['srcs'])
        need(getattr(cls, 'q', 0) == want['q'], 'equations', cls.q)
        need(cls.log == x['d']['log'], 'log', cls.log)


def replay(rec):
    sp = import_sdepy()
    fl0 = sum(len(str(x)) for x in rec['fns']) + sum(
        e['k'] for e in rec['log'])
    fns, classes, containers = [], [], []
    for k, x in enumerate(rec['fns']):
        want = rec['classes'][k]
        f = make_function(x['f'])
        fns.append(f)
        try:
            cls = decorate(sp, f, x['d'], fl0 + k, containers)
        except Exception as e:
            need(not want['ok'], 'function', x, 'rejected:', repr(e))
            classes.append(None)
            continue
        need(want['ok'], 'function accepted', x)
        need(isinstance(cls, type) and issubclass(cls, sp.integrator)
             and issubclass(cls, sp.SDE), 'not an integrable class', cls)
        classes.append(cls)
    for j, e in enumerate(rec['log']):
        check_classes(rec, classes)
        if e['k'] == 0:
            for c in containers:
                touch(c, j)
            continue
        k = e['k'] - 1
        x, c = rec['fns'][k], rec['classes'][k]
        vshape = ((), (2,), (1, 2))[(fl0 + k) % 3]
        given = {'a': 1.5} if (j + fl0) % 2 else {}
        log1, log2 = [], []
        if not e['ok']:
            try:
                integrate(sp, classes[k], c, x['d'], vshape, log1, given)
            except Exception:
                continue
            raise Mismatch('function {} integrated as {}'.format(x, c))
        r1 = integrate(sp, classes[k], c, x['d'], vshape, log1, given)
        r2 = integrate(sp, explicit(sp, fns[k], c, x['d']), c, x['d'], vshape,
                       log2, given)
        need(log1 == log2, 'source queries', log1, 'differ from', log2)
        need(type(r1) is type(r2), 'result', type(r1), type(r2))
        if c['q'] == 0:
            r1, r2 = (r1,), (r2,)
        need(len(r1) == len(r2) == max(1, c['q']), 'number of results')
        for a, b in zip(r1, r2):
            need(isinstance(a, sp.process) and np.array_equal(a.t, b.t),
                 'timeline')
            need(a.shape == (4,) + vshape + (2,), 'shape', a.shape)
            need(not np.any(np.isnan(b)), 'explicit class gives nan')
            close(np.asarray(a), np.asarray(b), 'decorated vs explicit',
                  rtol=1e-12, atol=1e-12)
    check_classes(rec, classes)
