"""Binding of specs/TrueWiener.tla to true_wiener_source."""
import numpy as np
from .core import need, close, num, import_sdepy
from .noise import law as gauss_law

R3 = np.array(((1., .5, -.25), (.5, 1., .125), (-.25, .125, 1.)))
RHO2 = np.array((.5, -.75))
R4 = np.array(((1, 0, .5, 0), (0, 1, 0, -.75), (.5, 0, 1, 0), (0, -.75, 0, 1)))


def corr_of(name, m):
    """correlation at time m (in the specification's units)"""
    return {'half': lambda: .5, 'minus': lambda: -1., 'step': lambda: .5 if m < 1.5 else -1/3,
            'linear': lambda: m/8}[name]()


def mat(r):
    return np.array(((1., r), (r, 1.)))


def setups(sp, name, real, spec_t):
    """(keyword arguments, vshape, kind of covariance) for a law"""
    if name == 'zero':
        yield {}, (), None
        yield {}, (2,), np.eye(2)
        yield dict(corr=R3), (3,), R3
        yield dict(corr=R3.reshape(3, 3, 1).tolist()), (2, 3), R3
        yield dict(rho=RHO2), (4,), R4
        yield dict(rho=RHO2.reshape(2, 1).tolist()), (1, 4), R4
        yield dict(corr=lambda t: R3), (3,), R3
        yield dict(rho=lambda t: RHO2), (4,), R4
        yield dict(corr=sp.process(c=R3)), (3,), R3
        yield dict(rho=sp.process(c=RHO2)), (4,), R4
        yield {}, (2, 2), np.eye(2)
        yield dict(corr=R3, rho=0.9), (3,), R3
        yield dict(rho=0.), (2,), np.eye(2)
    else:
        def r(t):
            return corr_of(name, spec_t(t))
        yield dict(corr=lambda t: mat(r(t))), (2,), 'sg'
        yield dict(rho=lambda t: r(t)), (2,), 'sg'
        yield dict(rho=lambda t: [r(t)]), (2, 2), 'sg'
        yield dict(corr=lambda s: mat(r(s)).reshape(2, 2, 1).tolist()), (2,), 'sg'
        yield dict(rho=lambda t: np.array([[r(t)]])), (2,), 'sg'
        if name == 'half':
            yield dict(rho=.5), (2,), 'sg'
            yield dict(rho=[.5]), (2,), 'sg'
            yield dict(corr=mat(.5)), (1, 2), 'sg'
        if name in ('half', 'linear'):
            tt = np.array([-40., 40.])
            x = np.array([r(real(s)) for s in tt])
            yield dict(rho=sp.process(real(tt), x=x.reshape(2, 1))), (2,), 'sg'
            yield dict(corr=sp.process(
                real(tt), x=np.stack([mat(v) for v in x])[..., None])), (2,), 'sg'


def replay(rec):
    sp = import_sdepy()
    h = sum((i + 2)*(k + 9) for i, k in enumerate(rec['known']))
    sc, off = ((1., 0.), (.5, 3.), (2., -10.))[h % 3]

    def real(k):
        return k*sc + off

    def spec_t(t):
        return (t - off)/sc
    cases = list(setups(sp, rec['law'], real, spec_t))
    kw, vshape, C = cases[h % len(cases)]
    paths = 1 + (h // 7) % 2
    z0 = (0., 2.5)[h // 3 % 2]
    known = rec['known']
    origin, queries = known[0], known[1:]
    order = sorted(known)
    what = '{} {} {}'.format(rec['law'], sorted(kw), vshape)

    def experiment(rng):
        src = sp.true_wiener_source(paths=paths, vshape=vshape, rng=rng,
                                    t0=real(origin), z0=z0, **kw)
        i = 0
        while i < len(queries):
            n = 1 + (h + i) % 2
            ts = [real(q) for q in queries[i:i+n]]
            if len(ts) == 1:
                src(ts[0]) if h % 5 else src(real(origin), ts[0] - real(origin))
            else:
                src(ts)
            i += n
        return src(np.array([real(q) for q in order]))
    mean, cov, n = gauss_law(experiment)
    close(mean, np.full((len(order),) + vshape + (paths,), z0), what + ' mean')
    # expected covariance, as (time, row, component, path)
    rows = int(np.prod(vshape[:-1])) if vshape else 1
    M = vshape[-1] if vshape else 1
    cov = cov.reshape(2*(len(order), rows, M, paths))
    exp = np.zeros_like(cov)
    c = rec['cov']
    for a, ka in enumerate(order):
        for b, kb in enumerate(order):
            i, j = known.index(ka), known.index(kb)
            p, m = num(c[0][i][j])*sc, num(c[1][i][j])*sc
            if isinstance(C, str):
                block = np.array((((p + m)/2, (p - m)/2), ((p - m)/2, (p + m)/2)))
            else:
                block = p*(np.eye(1) if C is None else C)
            for r in range(rows):
                for k in range(paths):
                    exp[a, r, :, k, b, r, :, k] = block
    close(cov, exp, what + ' covariance at times {} origin {}'.format(
        order, origin), atol=1e-8)


# ---------------------------------------------------------------------------
# three components, correlations that do not commute

def mat3(r12, r23, r13=0.):
    return np.array(((1., r12, r13), (r12, 1., r23), (r13, r23, 1.)))


def corr3_of(name, m):
    return {'const': lambda: mat3(.5, .5),
            'turn': lambda: mat3(.5, 0.) if m < 1.5 else mat3(0., .5),
            'linear': lambda: mat3(.5, m/4)}[name]()


def setups3(sp, name, real, spec_t):
    def C(t):
        return corr3_of(name, spec_t(t))
    yield dict(corr=C), (3,)
    yield dict(corr=lambda t: C(t).tolist()), (2, 3)
    yield dict(corr=lambda s: C(s).reshape(3, 3, 1)), (3,)
    if name == 'const':
        yield dict(corr=C(0)), (3,)
    if name in ('const', 'linear'):
        tt = real(np.array([-8., 8.]))
        x = np.stack([C(s) for s in tt])
        yield dict(corr=sp.process(tt, x=x[..., None])), (3,)


def replay_mat(rec):
    sp = import_sdepy()
    known = rec['known']
    h = sum((i + 2)*(k + 9) for i, k in enumerate(known))
    sc, off = ((1., 0.), (.5, 3.), (2., -10.))[h % 3]

    def real(k):
        return k*sc + off

    def spec_t(t):
        return (t - off)/sc
    cases = list(setups3(sp, rec['law'], real, spec_t))
    kw, vshape = cases[h // 3 % len(cases)]
    paths = 1 + (h // 7) % 2
    origin, queries = known[0], known[1:]
    order = sorted(known)

    def experiment(rng):
        src = sp.true_wiener_source(paths=paths, vshape=vshape, rng=rng,
                                    t0=real(origin), **kw)
        i = 0
        while i < len(queries):
            n = 1 + (h + i) % 2
            ts = [real(q) for q in queries[i:i+n]]
            src(ts[0] if len(ts) == 1 else ts)
            i += n
        return src(np.array([real(q) for q in order]))
    mean, cov, n = gauss_law(experiment)
    rows = int(np.prod(vshape[:-1]))
    close(mean, np.zeros((len(order),) + vshape + (paths,)), 'mean')
    cov = cov.reshape(2*(len(order), rows, 3, paths))
    exp = np.zeros_like(cov)
    for a, ka in enumerate(order):
        for b, kb in enumerate(order):
            c = rec['cov'][known.index(ka)][known.index(kb)]
            block = np.array([[num(v)*sc for v in row] for row in c])
            for r in range(rows):
                for k in range(paths):
                    exp[a, r, :, k, b, r, :, k] = block
    close(cov, exp, '{} {} covariance at times {} origin {}'.format(
        rec['law'], vshape, order, origin), atol=1e-8)
