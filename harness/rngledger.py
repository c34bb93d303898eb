"""Binding of specs/RngLedger.tla: every kind of source and process, with
every generator around under observation."""
import random
import numpy as np
from .core import need, expect_error, import_sdepy

TL = (0., .25, .5, 1.)


def sources(sp):
    """name, maker(rng keyword): objects drawing with their own generator"""
    def calls(o, n):
        return o([n*.5, n + 1.], [2., -1.5])

    def memory(o, n):
        # outside, then inside of the known times, on both sides
        return [o(n + 1.), o(n + .5), o(-n - 1.), o(-n - .25)]
    y = [sp.norm_rv(0, 1), sp.norm_rv(lambda t: t, 2), sp.uniform_rv(0, 1),
         sp.exp_rv(2), sp.double_exp_rv(1, 2, .3), None,
         sp.rvmap(lambda z: 2*z, sp.norm_rv()),
         sp.rvmap(lambda t, z: t*z, sp.exp_rv(lambda t: 1 + t*t)),
         sp.double_exp_rv(1, lambda t: 2. + 0*t, .3)]
    C = np.array(((1., .5), (.5, 1.)))
    out = []

    def add(name, cls, use, **kw):
        out.append((name, lambda **rng: cls(**dict(kw, **rng)), use))
    add('wiener', sp.wiener_source, calls, paths=2, vshape=(2,))
    add('wiener corr', sp.wiener_source, calls, paths=3, vshape=(2,), corr=C)
    add('wiener rho(t)', sp.wiener_source, calls, paths=3, vshape=2,
        rho=lambda t: .5 if t < 0 else .25)
    add('poisson', sp.poisson_source, calls, paths=2, lam=3.)
    add('poisson lam(t)', sp.poisson_source, calls, paths=2, lam=lambda t: 1 + t*t)
    for k, v in enumerate(y):
        add('cpoisson %d' % k, sp.cpoisson_source, calls, paths=3, lam=4., y=v)
        if k % 2:
            add('true_cpoisson %d' % k, sp.true_cpoisson_source, memory, paths=3,
                lam=4., y=v)
        if k % 3 == 0:
            add('even_cpoisson %d' % k, sp.even_cpoisson_source, calls, paths=4,
                lam=4., y=v)
    add('cpoisson dn class', sp.cpoisson_source, calls, paths=3, lam=4.,
        dn=sp.poisson_source)
    add('odd_wiener', sp.odd_wiener_source, calls, paths=4, vshape=(2,), rho=.5)
    add('even_poisson', sp.even_poisson_source, calls, paths=4, lam=5., dtype=int)
    add('true_wiener', sp.true_wiener_source, memory, paths=2, vshape=(2,))
    add('true_wiener corr', sp.true_wiener_source, memory, paths=2, vshape=(2,), corr=C)
    add('true_wiener rho(t)', sp.true_wiener_source, memory, paths=2, vshape=(2,),
        rho=lambda t: .5 if t < 0 else .25)
    add('true_poisson', sp.true_poisson_source, memory, paths=3, lam=3.)
    return out


def processes(sp):
    def run(o, n):
        z = o([t + n for t in TL])
        return list(z) if isinstance(z, tuple) else [z]

    class mine_SDE(sp.SDE):
        def sde(self, t, x, a=1., b=.5):
            return {'dt': a*x, 'dw': b}

    class mine(mine_SDE, sp.integrator):
        pass

    class pair_SDE(sp.SDEs):
        q, addaxis = 2, True

        def sde(self, t, x, y, b=.5):
            return {'dt': x, 'dw': b}, {'dt': y, 'dw': b*2}

    class pair(pair_SDE, sp.integrator):
        pass

    @sp.integrate
    def deco(t, x, b=.5):
        return {'dt': x, 'dw': b, 'dn': .5, 'dj': 1}
    out = []

    def add(name, cls, use=run, **kw):
        out.append((name, lambda **rng: cls(**dict(dict(paths=2), **kw, **rng)), use))
    for name in ('wiener', 'lognorm', 'ornstein_uhlenbeck', 'hull_white',
                 'hull_white_1factor', 'cox_ingersoll_ross', 'heston',
                 'full_heston', 'jumpdiff', 'merton_jumpdiff', 'kou_jumpdiff'):
        add(name, getattr(sp, name + '_process'), steps=5)
    add('hull_white rho', sp.hull_white_process, factors=2, rho=.3)
    add('wiener corr', sp.wiener_process, vshape=2, rho=lambda t: .25)
    add('odd class', sp.wiener_process, dw=sp.odd_wiener_source)
    add('true class', sp.lognorm_process, dw=sp.true_wiener_source)
    add('even class', sp.jumpdiff_process, dw=sp.odd_wiener_source,
        dj=sp.even_cpoisson_source, lam=9.)
    add('SDE', mine)
    add('SDEs', pair)
    add('decorated', deco, lam=3.)
    for name in ('wiener', 'oruh', 'cir', 'heston_xy', 'mjd', 'kou', 'hwff'):
        f = getattr(sp, name)
        out.append(('kfunc ' + name, lambda f=f, **rng: f(paths=2, **rng), run))
        out.append(('kfunc derived ' + name,
                    lambda f=f, **rng: f(paths=2)(dtype=float, **rng), run))
        if name != 'wiener':
            continue
        out.append(('kfunc override',
                    lambda f=f, **rng: f(paths=2, **rng),
                    lambda o, n: [o([t + n for t in TL])]))
    for name in ('dw', 'true_dw', 'odd_dw'):
        f = getattr(sp, name)
        out.append(('kfunc ' + name, lambda f=f, **rng: f(paths=2, **rng),
                    lambda o, n: o(np.array([n + 1.]), np.array([.5]))))
    return out


def given(sp):
    """makers(source generator keyword, own generator keyword)"""
    def run(o, n):
        return [o([t + n for t in TL])]

    def dw(cls=sp.wiener_source, **kw):
        return lambda rng: cls(paths=2, **dict(kw, **rng))
    out = []

    def add(name, cls, src, slot='dw', **kw):
        out.append((name, lambda s, r: cls(paths=2, **{slot: src(s)}, **dict(kw, **r)), run))
    add('wiener', sp.wiener_process, dw())
    add('wiener true', sp.wiener_process, dw(sp.true_wiener_source))
    add('lognorm odd', sp.lognorm_process, dw(sp.odd_wiener_source))
    add('cir', sp.cox_ingersoll_ross_process, dw())
    add('oruh shared', sp.ornstein_uhlenbeck_process,
        lambda rng: sp.true_wiener_source(paths=2, vshape=(2,), **rng)[0])
    add('kfunc', sp.wiener, dw())
    return out


def mixed(sp):
    """part of the noise from the given source, part from the own generator"""
    def run(o, n):
        return [o([t + n for t in TL])]

    def calls(o, n):
        return o([n*.5, n + 1.], [2., -1.5])

    def wi(rng, cls=sp.wiener_source):
        return cls(paths=2, **rng)

    def cp(rng):
        return sp.cpoisson_source(paths=2, lam=30., **rng)

    def po(rng, cls=sp.poisson_source):
        return cls(paths=2, lam=30., **rng)
    return [
        ('merton dw', lambda s, r: sp.merton_jumpdiff_process(
            paths=2, lam=30., dw=wi(s), **r), run),
        ('jumpdiff dj', lambda s, r: sp.jumpdiff_process(paths=2, dj=cp(s), **r), run),
        ('kou dj', lambda s, r: sp.kou_jumpdiff_process(paths=2, dj=cp(s), **r), run),
        ('cpoisson dn', lambda s, r: sp.cpoisson_source(
            paths=2, dn=po(s), y=sp.norm_rv(), **r), calls),
        ('cpoisson true dn', lambda s, r: sp.cpoisson_source(
            paths=2, dn=po(s, sp.true_poisson_source), **r), calls),
        ('true_cpoisson dn', lambda s, r: sp.true_cpoisson_source(
            paths=2, dn=po(s, sp.true_poisson_source), **r),
            lambda o, n: [o(n + 1.), o(-n - 2.)]),
    ]


def generator(g, flavour):
    seed = sum(map(ord, g)) + flavour
    if (flavour//2 + ord(g[0])) % 3 == 0:
        return np.random.RandomState(seed)
    if flavour % 2:
        return np.random.Generator(np.random.MT19937(seed))
    return np.random.default_rng(seed)


class Same:
    """exact state of a generator, cheaply compared"""

    def __init__(self, gens):
        self.now = {g: full_state(v) for g, v in gens.items()}
        self.np = full_state(np.random)
        self.py = random.getstate()


def flat(s):
    if isinstance(s, dict):
        return tuple((k, flat(v)) for k, v in sorted(s.items()))
    if isinstance(s, (tuple, list)):
        return tuple(flat(v) for v in s)
    if isinstance(s, np.ndarray):
        return s.tobytes()
    return s


def full_state(g):
    return flat(g.get_state(legacy=False) if hasattr(g, 'get_state')
                else g.bit_generator.state)


class World:

    def __init__(self, rec, flavour):
        self.sp = import_sdepy()
        self.inf = self.sp.infrastructure
        self.log, self.flavour = rec['log'], flavour
        self.own = sources(self.sp) + processes(self.sp)
        self.given, self.mixed = given(self.sp), mixed(self.sp)

    def kw(self, arg):
        return {} if arg == 'none' and self.flavour % 2 else \
            {'rng': None if arg == 'none' else self.gens[arg]}

    def create(self, e, n):
        h = self.flavour//7 + 5*n
        if e['kind'] == 'own':
            name, make, use = self.own[h % len(self.own)]
            return name, make(**self.kw(e['arg'])), use
        name, make, use = (lambda z: z[h % len(z)])(getattr(self, e['kind']))
        return name, make(self.kw(e['src']), self.kw(e['arg'])), use

    def run(self, ops=None):
        """results of the uses in the log, restricted to given operations"""
        sp, inf = self.sp, self.inf
        self.gens = {g: generator(g, self.flavour) for g in 'deab'}
        before = inf.default_rng
        inf.default_rng = self.gens['d']
        objs, uses, results, created = {}, {}, {}, 0
        try:
            for n, e in enumerate(self.log):
                skip = ops is not None and n + 1 not in ops
                if e['op'] == 'create':
                    created += 1
                if skip:
                    continue
                s0 = Same(self.gens)
                what = 'operation {} ({})'.format(n, e['op'])
                if e['op'] == 'create':
                    objs[created] = self.create(e, n)
                    name, o, _ = objs[created]
                    what += ' ' + name
                    if e['kind'] == 'own' and hasattr(o, 'rng'):
                        g, = e['gens']
                        need(o.rng is self.gens[g], what, 'reports another generator')
                elif e['op'] == 'install':
                    inf.default_rng = self.gens[e['g']]
                elif e['op'] == 'seed':
                    seed = (7, np.int64(7), [1, 2], np.array([3, 4]))[(self.flavour + n) % 4]
                    name, make, use = self.own[(self.flavour//3 + n) % len(self.own)]
                    expect_error(lambda: use(make(rng=seed), 0), (TypeError,),
                                 '{} with seed {!r}'.format(name, seed))
                else:
                    name, o, use = objs[e['k']]
                    what += ' ' + name
                    u = uses[e['k']] = uses.get(e['k'], -1) + 1
                    z = use(o, u)
                    results[n] = [np.array(v) for v in
                                  (z if isinstance(z, list) else [z])]
                s1 = Same(self.gens)
                need(s0.np == s1.np, what, 'advanced the global numpy generator')
                need(s0.py == s1.py, what, 'advanced the global Python generator')
                moved = {g for g in self.gens if s0.now[g] != s1.now[g]}
                exp = set(e['gens']) if e['op'] == 'use' else set()
                need(moved == exp, what, 'advanced generators', sorted(moved),
                     'instead of', sorted(exp))
                need(inf.default_rng is self.gens[self.default(n)], what,
                     'changed the default generator')
            return results, Same(self.gens)
        finally:
            inf.default_rng = before

    def default(self, n):
        d = 'd'
        for e in self.log[:n + 1]:
            if e['op'] == 'install':
                d = e['g']
        return d


def same(a, b, what):
    need(len(a) == len(b) and all(
        x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
        for x, y in zip(a, b)), what)


def replay(rec):
    flavour = 0
    for i, e in enumerate(rec['log']):
        for c in e['op'] + e.get('arg', '') + e.get('src', '') + \
                e.get('kind', '') + str(e.get('k', '')) + e.get('g', ''):
            flavour = (flavour*131 + ord(c)) % 1000003
    w = World(rec, flavour)
    res, end = w.run()
    # other generators about are in another state now: no matter
    np.random.random(1)
    random.random()
    again, end2 = w.run()
    need(res.keys() == again.keys(), 'uses')
    for n in res:
        same(res[n], again[n], 'results of operation {} are not reproduced'.format(n))
    need(end.now == end2.now, 'generators are left in a different state')
    for g in rec['groups']:
        part, endp = w.run(set(g['ops']))
        for n in part:
            same(res[n], part[n], 'results of operation {} depend on operations '
                 'not involving generators {}'.format(n, g['gens']))
        for x in g['gens']:
            need(end.now[x] == endp.now[x], 'final state of', x, 'depends on '
                 'operations not involving it')
