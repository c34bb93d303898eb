"""Binding of specs/Params.tla to parameter handling in SDE and SDEs."""
import inspect
import numpy as np
from .core import Mismatch, need, close, import_sdepy

PLACES = ('sde', 'init', 'source', 'more')
NONE = 9     # stands for None, a value like any other
_cache = {}


def number(z):
    return float(NONE if z is None else np.asarray(z).ravel()[0])


def define(sp, classes, flavour):
    """Classes declaring parameters as required, which record the values
    received by each place in a list."""
    q = (0, 1, 2)[flavour % 3]
    key = (repr(classes), q)
    if key not in _cache:
        if len(_cache) > 500:
            _cache.clear()
        made = []
        for k, c in enumerate(classes):
            made.append(define_one(
                sp, c['d'], c['over'], q,
                made[c['parent'] - 1] if c['parent'] else None,
                # whether integrator comes along with the parent
                flavour % 2))
        _cache[key] = [m[1] for m in made], q
    return _cache[key]


def define_one(sp, decl, over, q, parent, early):
    base = parent[0] if parent else sp.SDE if q == 0 else sp.SDEs

    def sig(place, first):
        names = sorted(n for n in decl[place] if decl[place][n] != 0)
        ps = [(n if decl[place][n] < 0 else '{}={}'.format(
            n, None if decl[place][n] == NONE else float(decl[place][n])))
              for n in names]
        # parameters without a default come first
        ps.sort(key=lambda s: '=' in s)
        return ', '.join(first + ps), ', '.join(
            '{0}={0}'.format(n) for n in names)
    xs = ['x%d' % k for k in range(max(1, q))]
    src = ''
    for place, name, first in (('sde', 'sde', ['self', 't'] + xs),
                               ('init', 'init', ['self', 't', 'out_x']),
                               ('source', 'source_da', ['self']),
                               ('more', 'more', ['self'])):
        d, names = sig(place, first)
        src += 'def {}({}):\n    return act_{}(self{}, dict({}))\n'.format(
            name, d, place, ', t, (' + ', '.join(xs) + ',)' if place == 'sde'
            else ', t, out_x' if place == 'init' else '', names)

    def total(self, d, t=None):
        v = 0.
        for n, z in d.items():
            if callable(z):
                z = z(0. if t is None else t)
            v = v + number(z)
        return v

    def act_sde(self, t, xs, d):
        self.__dict__.setdefault('rec', []).append(('sde', {n: number(z)
                                 for n, z in d.items()}))
        c = {'dt': total(self, d), 'da': 100.}
        return c if q == 0 else tuple(dict(c) for _ in range(q))

    def act_init(self, t, out_x, d):
        self.__dict__.setdefault('rec', []).append(('init', {n: number(z)
                                  for n, z in d.items()}))
        out_x[...] = total(self, d)

    def act_source(self, d):
        rec = self.__dict__.setdefault('rec', [])

        class Src:
            paths, vshape = self.paths, self.wshape

            def __call__(self, t, dt):
                rec.append(('source', {
                    n: number(z(t) if callable(z) else z)
                    for n, z in d.items()}))
                return np.full(self.vshape + (self.paths,), dt*total(
                    None, d, t))
        return Src()

    def act_more(self, d):
        self.more_got = {n: number(z(0.) if callable(z) else z) for n, z in d.items()}
        self.__dict__.setdefault('rec', []).append(('more', self.more_got))
    g = dict(act_sde=act_sde, act_init=act_init, act_source=act_source,
             act_more=act_more)
    exec(src, g)
    ns = dict(sources={'dt', 'da'}, sde=g['sde'], init=g['init'],
              source_da=g['source_da'], more=g['more'])
    if q:
        ns['q'] = q
    owner = dict(sde='sde', init='init', source='source_da', more='more')
    for place, name in owner.items():
        if place not in over:
            del ns[name]
    if parent:
        del ns['sources']
        ns.pop('q', None)
    if parent and early:
        cls = type('E', (parent[1],), ns)
        return cls, cls
    sde = type('D_SDE', (base,), ns)
    if issubclass(sde, sp.integrator):
        return sde, sde
    return sde, type('D', (sde, sp.integrator), {})


def kinds(sp, decl, name, v, flavour):
    """The value, as number, array, function of time, or process."""
    if v == NONE:
        return None
    if decl['init'][name] == 0 and decl['more'][name] == 0:
        k = flavour % 5
    else:
        k = flavour % 2
    return (float(v), np.array(float(v)), lambda t: float(v),
            sp.process(c=float(v)), lambda t: np.full((1,), float(v)))[k]


class Obj:
    pass


def replay(rec):
    sp = import_sdepy()
    fl0 = sum(v for decl in rec['decl'] for p in decl.values()
              for v in p.values()) + len(rec['log'])
    objs = {}
    single = len(rec['decl']) == 1
    for j, e in enumerate(rec['log']):
        decl = rec['decl'][e['cls'] - 1]
        if e['op'] == 'new':
            fl = fl0 + 3*j + sum(e['given'].values())
            made, q = define(sp, rec['classes'], fl if single else fl0)
            cls = made[e['cls'] - 1]
            given = {n: kinds(sp, decl, n, v, fl + len(n))
                     for n, v in e['given'].items() if v != 0}
            before = {n: (z, np.array(z, copy=True) if isinstance(
                z, np.ndarray) else None) for n, z in given.items()}
            # steps and timeline are the caller's, just as well
            steps = (None, np.array([1.5, 0.25, 3., 0.25]), None,
                     [1.5, 0.25, -1., 0.75])[fl % 4]
            kept = None if steps is None else steps.copy()
            more = {} if steps is None else {'steps': steps}
            try:
                o = cls(paths=2, vshape=(), **given, **more)
            except TypeError as x:
                need(not e['ok'], 'step', j, 'rejected', x)
                continue
            need(e['ok'], 'step', j, 'invalid parameters accepted: declared',
                 decl, 'given', e['given'])
            ob = objs[e['obj']] = Obj()
            ob.o, ob.q, ob.before, ob.given = o, q, before, given
            ob.steps, ob.kept = steps, kept
            ob.tl = ((0., 0.5, 2.), np.array((0., 0.5, 2.)))[fl // 4 % 2]
            # parameters are complete and available
            need(set(o.args) == {n for p in decl.values() for n in p
                                 if p[n] != 0}, 'args are', o.args)
        else:
            ob = objs[e['obj']]
            r = ob.o(ob.tl)
            need(ob.steps is None or list(ob.steps) == list(ob.kept), 'step', j,
                 'steps given as', ob.kept, 'now', ob.steps)
            need(tuple(ob.tl) == (0., 0.5, 2.), 'timeline changed', ob.tl)
            want = {p: {n: float(v) for n, v in e['recv'][p].items() if v != 0}
                    for p in PLACES}
            got = {}
            for place, d in ob.o.rec:
                need(got.setdefault(place, d) == d, 'step', j, place,
                     'received different values', got[place], d)
            for p in PLACES:
                need(got[p] == want[p], 'step', j, p, 'received', got[p],
                     'expected', want[p])
            for n, (z, copy) in ob.before.items():
                need(ob.given[n] is z, 'parameter replaced', n)
                if copy is not None:
                    need(np.array_equal(z, copy), 'input modified', n)
            tot = {p: sum(want[p].values()) for p in PLACES}
            for x in (r if ob.q else (r,)):
                exp = np.array([tot['init'] + t*(tot['sde'] + 100*tot['source'])
                                for t in (0., 0.5, 2.)])
                close(np.asarray(x), np.stack((exp, exp), axis=1),
                      'step {} result'.format(j))
