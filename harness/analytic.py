"""C27: the laws of specs/Analytic.tla compared with the analytical results
of the package."""
import functools
import inspect

import numpy as np
import scipy.special
import scipy.stats

from .core import need, close, import_sdepy

sdepy = import_sdepy()
import sdepy.analytical  # noqa


class Guard:
    """The functions of the package, watched for changes of arguments."""

    def __dir__(self):
        return dir(sdepy.analytical)

    def __getattr__(self, name):
        f = getattr(sdepy.analytical, name)
        if not inspect.isfunction(f):
            return f

        @functools.wraps(f)
        def watched(*args, **kw):
            arrays = [z for z in args + tuple(kw.values())
                      if isinstance(z, np.ndarray)]
            given = [z.copy() for z in arrays]
            r = f(*args, **kw)
            for z, y in zip(arrays, given):
                need(np.array_equal(z, y, equal_nan=z.dtype.kind in 'fc'),
                     name, 'changed its arguments from', y.tolist(), 'to',
                     z.tolist())
            return r
        return watched


ana = Guard()

L = np.log(2.)
US = [1., -2., 0.5]
STRIKE = 3.
RTOL = 1e-9


def q(v):
    return v[0]/v[1]


def pair(v):
    return q(v['q']) + q(v['l'])*L


def phi(z):
    return 0.5*scipy.special.erfc(-z/np.sqrt(2))


def norm_pdf(x, m, v):
    return np.exp(-(x - m)**2/(2*v))/np.sqrt(2*np.pi*v)


# ---- parameters and laws ---------------------------------------------------

def kwargs(fam, p):
    if fam == 'wiener':
        return dict(x0=q(p['x0']), mu=q(p['mu']), sigma=q(p['s']))
    if fam == 'lognorm':
        return dict(x0=2.**p['j'], mu=p['m']*L, sigma=np.sqrt(p['s']*L))
    if fam == 'oruh':
        return dict(x0=q(p['x0']), theta=q(p['theta']), k=p['k']*L,
                    sigma=q(p['w'])*np.sqrt(L))
    if fam == 'hw2f':
        f = p['f']
        return dict(x0=[q(a['x0']) for a in f],
                    theta=[q(a['theta']) for a in f],
                    k=[a['k']*L for a in f],
                    sigma=[q(a['w'])*np.sqrt(L) for a in f], rho=q(p['rho']))
    if fam == 'cir':
        return dict(x0=q(p['x0']), theta=q(p['theta']), k=p['k']*L,
                    xi=np.sqrt(q(p['z'])*L))
    if fam == 'heston':
        sigma, xi = np.sqrt(q(p['s'])*L), np.sqrt(q(p['z'])*L)
        return dict(x0=2.**p['j'], mu=p['m']*L, sigma=sigma, y0=q(p['y0']),
                    theta=q(p['theta']), k=p['k']*L, xi=xi,
                    rho=q(p['c'])*L/(sigma*xi))
    if fam == 'mjd':
        b = q(p['b'])
        return dict(x0=2.**p['j'], mu=p['m']*L, sigma=q(p['s']),
                    lam=p['l']*L, a=p['n']*L - b*b/2, b=b)
    if fam == 'kou':
        return dict(x0=2.**p['j'], mu=p['m']*L, sigma=q(p['s']),
                    lam=p['l']*L, a=q(p['a']), b=q(p['b']), pa=q(p['pa']))
    if fam == 'bs':
        return dict(x0=STRIKE*2.**p['j'], r=p['r']*L, q=p['q']*L,
                    sigma=np.sqrt(q(p['s'])))


def moments(fam, st):
    """Mean and variance of what the family reports (None: not reported)."""
    if fam in ('wiener', 'oruh', 'cir'):
        return q(st['m']), q(st['v'])
    if fam == 'lognorm':
        return q(st['m']), q(st['m2']) - q(st['m'])**2
    if fam == 'hw2f':
        return (q(st['m1']) + q(st['m2']),
                q(st['v11']) + q(st['v22']) + 2*q(st['v12']))
    if fam == 'heston':
        return pair(st['lx']), pair(st['vxx'])
    return q(st['m']), None


def chf(fam, rec, st, u):
    """Characteristic function at u (or None, if not specified at u)."""
    if fam == 'wiener':
        return np.exp(1j*u*q(st['m']) - u*u*q(st['v'])/2)
    if fam == 'lognorm':
        return np.exp(L*(1j*u*q(st['lm']) - u*u*q(st['lv'])/2))
    if fam in ('mjd', 'kou'):
        if fam == 'mjd':
            kw = kwargs(fam, rec['par'])
            jump = np.exp(1j*u*kw['a'] - kw['b']**2*u*u/2) - 1
        else:
            js = [j for j in rec['jumps'] if q(j['u']) == u]
            if not js:
                return None
            jump = q(js[0]['v']['re']) + 1j*q(js[0]['v']['im'])
        return np.exp(1j*u*pair(st['lx']) - u*u*q(st['lv'])/2 +
                      q(st['lt'])*L*jump)


PREFIX = dict(wiener='wiener_', lognorm='lognorm_', oruh='oruh_',
              hw2f='hw2f_', cir='cir_', heston='heston_log_', mjd='mjd_',
              kou='kou_')
CHF = dict(wiener='wiener_chf', lognorm='lognorm_log_chf',
           mjd='mjd_log_chf', kou='kou_log_chf', heston='heston_log_chf')


def density(fam, rec, st, z):
    """Point at z standard deviations, density and distribution there."""
    if fam == 'lognorm':
        m, v = q(st['lm'])*L, q(st['lv'])*L
        x = np.exp(m + z*np.sqrt(v))
        return x, norm_pdf(np.log(x), m, v)/x, phi((np.log(x) - m)/np.sqrt(v))
    m, v = moments(fam, st)
    x = m + z*np.sqrt(v)
    if fam == 'cir':
        x = m*np.exp(z/2)
        kw = kwargs(fam, rec['par'])
        # law of the process: scaled noncentral chi square
        D = 1/2.**(rec['par']['k']*st['t'])
        c = 2*kw['k']/((1 - D)*kw['xi']**2)
        df = 4*kw['k']*kw['theta']/kw['xi']**2
        return x, 2*c*scipy.stats.ncx2.pdf(2*c*x, df, 2*c*kw['x0']*D), None
    return x, norm_pdf(x, m, v), phi((x - m)/np.sqrt(v))


def names(fam):
    return [PREFIX[fam]] + (['hw1f_'] if fam == 'oruh' else [])


def values(fam, rec, st, api):
    """All pairs (call, expected) for one state; a call is
    (function, leading variables besides t, is t the first variable)."""
    kw = kwargs(fam, rec['par'])
    m, v = moments(fam, st)
    out = []
    for pre in names(fam):
        out.append((pre + 'mean', (), m))
        if v is not None:
            out.append((pre + 'var', (), v))
            out.append((pre + 'std', (), np.sqrt(max(v, 0.))))
        if st['t'] > 0 and fam in ('wiener', 'lognorm', 'oruh', 'hw2f', 'cir'):
            for z in (-1.5, 0., 0.75):
                x, d, c = density(fam, rec, st, z)
                out.append((pre + 'pdf', (x,), d))
                if c is not None:
                    out.append((pre + 'cdf', (x,), c))
    if fam in CHF and fam != 'heston':
        for u in US:
            out.append((CHF[fam], (u,), chf(fam, rec, st, u)))
        out.append((CHF[fam], (0.,), 1.))
    return out, kw


def bs_values(rec, st):
    p = rec['par']
    x0 = STRIKE*2.**p['j']
    dr, dq = q(st['dr']), q(st['dq'])
    V = q(st['v'])
    out = []
    if V == 0:
        # worth its intrinsic value
        f = st['f']
        call = max(x0*dq - STRIKE*dr, 0.)
        put = max(STRIKE*dr - x0*dq, 0.)
        if f != 0:
            out += [('bscall_delta', dq if f > 0 else 0.),
                    ('bsput_delta', -dq if f < 0 else 0.)]
    else:
        A = st['f']*L
        d1 = (A + V/2)/np.sqrt(V)
        d2 = (A - V/2)/np.sqrt(V)
        call = x0*dq*phi(d1) - STRIKE*dr*phi(d2)
        put = STRIKE*dr*phi(-d2) - x0*dq*phi(-d1)
        out += [('bscall_delta', dq*phi(d1)), ('bsput_delta', -dq*phi(-d1)),
                ('bsd1d2', np.array([d1, d2]))]
    return out + [('bscall', call), ('bsput', put)], dr, dq, x0


# ---- replay ---------------------------------------------------------------

def replay_bs(rec, states, alt):
    kw = kwargs('bs', rec['par'])
    for st in states:
        t = st['t']
        out, dr, dq, x0 = bs_values(rec, st)
        for name, want in out:
            got = np.array(getattr(ana, name)(STRIKE, t, **kw))
            close(got, want, name + ' at t={}'.format(t), RTOL, 1e-9)
        c = ana.bscall(STRIKE, float(t), **kw)
        p = ana.bsput(STRIKE, float(t), **kw)
        close(c - p, x0*dq - STRIKE*dr, 'put-call parity', RTOL, 1e-9)
        # value is homogeneous in prices
        kw2 = dict(kw, x0=kw['x0']*4)
        close(ana.bscall(STRIKE*4, t, **kw2), 4*c, 'scaling', RTOL, 1e-9)
    if not alt:
        return
    # all at once: strikes and times as lists, parameters as columns
    ts = [st['t'] for st in states]
    kws = [kw, kwargs('bs', alt['par'])]
    arrays = {k: np.array([[w[k]] for w in kws]) for k in kw}
    for name in ('bscall', 'bsput', 'bscall_delta', 'bsput_delta'):
        want = np.array([[dict(bs_values(r, st)[0]).get(name, np.nan)
                          for st in states_of(r)] for r in (rec, alt)])
        for tt in (ts, np.array(ts), np.array(ts, float)):
            got = getattr(ana, name)(STRIKE, tt, **arrays)
            need(np.shape(got) == want.shape, name, 'shape', np.shape(got))
            ok = ~np.isnan(want)
            close(got[ok], want[ok], name + ' broadcast', RTOL, 1e-9)
        got = getattr(ana, name)([STRIKE]*len(ts), ts, **kw)
        ok = ~np.isnan(want[0])
        close(np.asarray(got)[ok], want[0][ok], name + ' list', RTOL, 1e-9)
    # rates given as integers
    for name in ('bscall', 'bsput', 'bscall_delta', 'bsput_delta'):
        f = getattr(ana, name)
        a = f([2, 3], [1, 2], x0=3, r=1, q=0, sigma=1)
        b = [f(2., 1., x0=3., r=1., q=0., sigma=1.),
             f(3., 2., x0=3., r=1., q=0., sigma=1.)]
        close(a, b, name + ' of integers', RTOL)


def states_of(rec):
    return [dict(h['st'], t=h['t']) for h in rec['hist']]


def invert(f, x, v):
    """Density at x from a characteristic function, by the trapezoidal
    rule, which is spectrally accurate here."""
    U = 12./np.sqrt(v)
    u = np.linspace(-U, U, 8001)
    return np.real(np.exp(-1j*u*x)*f(u)).sum()*(u[1] - u[0])/(2*np.pi)


def check_heston_chf(rec, states, kw):
    f = ana.heston_log_chf
    for st in states:
        t = float(st['t'])
        m, v = moments('heston', st)

        def K(h):
            # cumulant generating function
            return np.real(np.log(f(t, -1j*h, **kw)))
        close(f(t, 0., **kw), 1., 'chf at 0', atol=1e-10)
        close(np.exp(K(1.)), q(st['x']), 'mean of exp(log x)', 1e-8)
        for u in US:
            close(f(t, -u, **kw), np.conj(f(t, u, **kw)), 'chf at -u')
        h = 1e-3
        close((K(h) - K(-h))/(2*h), m, 'mean from chf', 1e-5, 1e-5)
        if t > 0:
            close((K(h) + K(-h))/(h*h), v, 'variance from chf', 1e-4, 1e-5)
        if t == 0:
            continue
        # evolution: log chf = A + y0*B, where
        # A' = k*theta*B + i*u*mu,
        # B' = xi^2/2*B^2 + (i*u*rho*sigma*xi - k)*B - sigma^2/2*(u^2 + i*u)
        for u in US:
            d = 2e-4

            def AB(s):
                f0 = f(s, u, **dict(kw, y0=0.))
                f1 = f(s, u, **dict(kw, y0=0.25))
                return np.log(f0), np.log(f1/f0)/0.25
            (a0, b0), (a1, b1), (a2, b2) = AB(t - d), AB(t), AB(t + d)
            k, th, xi, rho, s = (kw[n] for n in
                                 ('k', 'theta', 'xi', 'rho', 'sigma'))

            def diff(z):
                # logarithms differ by multiples of 2 pi i
                return (z.real + 1j*((z.imag + np.pi) % (2*np.pi) - np.pi)) \
                    / (2*d)
            close(diff(a2 - a0), k*th*b1 + 1j*u*kw['mu'],
                  'evolution of the chf (constant)', 1e-5, 1e-5)
            close((b2 - b0)/(2*d),
                  xi*xi/2*b1*b1 + (1j*u*rho*s*xi - k)*b1 -
                  s*s/2*(u*u + 1j*u),
                  'evolution of the chf (linear)', 1e-5, 1e-5)


def check_log_pdf(fam, rec, st, kw):
    """Density of the logarithm, against the characteristic function."""
    t = float(st['t'])
    if fam == 'heston':
        m, v = moments(fam, st)
        name = 'heston_log_pdf'

        def f(u):
            return ana.heston_log_chf(t, u, **kw)
    else:
        name = fam + '_log_pdf'
        lt = q(st['lt'])*L
        if fam == 'mjd':
            j1, j2 = kw['a'], kw['a']**2 + kw['b']**2
            m0, v0 = pair(st['lx']), q(st['lv'])

            def f(u):
                return np.exp(1j*u*m0 - u*u*v0/2 + lt*(np.exp(
                    1j*u*kw['a'] - kw['b']**2*u*u/2) - 1))
        else:
            a, b, pa = kw['a'], kw['b'], kw['pa']
            j1 = pa*a - (1 - pa)*b
            j2 = 2*(pa*a*a + (1 - pa)*b*b)
            m0, v0 = pair(st['lx']), q(st['lv'])

            def f(u):
                return np.exp(1j*u*m0 - u*u*v0/2 + lt*(
                    pa/(1 - 1j*u*a) + (1 - pa)/(1 + 1j*u*b) - 1))
        m, v = m0 + lt*j1, v0 + lt*j2
    vmin = v if fam == 'heston' else q(st['lv'])
    xs = [m + z*np.sqrt(v) for z in (-1., 0.5)]
    want = [invert(f, x, vmin/16 if fam == 'heston' else vmin/2) for x in xs]
    g = getattr(ana, name)
    close(g(t, xs, **kw), want, name, 1e-5, 1e-6)
    close(g([t, t], xs[0], **kw), [want[0]]*2, name + ' at times', 1e-5, 1e-6)
    close(g(t, xs[1], **kw), want[1], name + ' scalar', 1e-5, 1e-6)


def replay(rec):
    fam = rec['fam']
    alt = rec.get('alt')
    states = states_of(rec)
    if fam == 'bs':
        return replay_bs(rec, states, alt)
    for st in states:
        out, kw = values(fam, rec, st, ana)
        for name, v, want in out:
            f = getattr(ana, name)
            t = st['t']
            for tt in (t, float(t)):
                got = f(tt, *v, **kw)
                need(np.shape(got) == (), name, 'is not scalar')
                # square roots of vanishing variances are less precise
                close(got, want, '{} at t={} {}'.format(name, t, v),
                      RTOL, 1e-6 if name.endswith('std') and t == 0
                      else 1e-10)
    if fam == 'heston':
        check_heston_chf(rec, states, kw)
    if fam == 'cir':
        st = states[-1]
        m, v = moments(fam, st)
        x = np.linspace(0, m + 30*np.sqrt(v), 20001)[1:]
        d = ana.cir_pdf(st['t'], x, **kw)
        h = x[1] - x[0]
        need(np.all(d >= 0), 'cir_pdf: negative')
        close(d.sum()*h, 1., 'integral of cir_pdf', 1e-3)
        close((d*x).sum()*h, m, 'mean from cir_pdf', 1e-3)
        close((d*(x - m)**2).sum()*h, v, 'variance from cir_pdf', 1e-3)
        # at the lower end: nothing, unless the exponent vanishes
        e = 2*kw['k']*kw['theta']/kw['xi']**2 - 1
        d = ana.cir_pdf(st['t'], np.array([0., m]), **kw)
        if e > 1e-6:
            close(d[0], 0., 'cir_pdf at 0')
        # at short times, far from overflows
        dt = 2.**-10
        s = kw['xi']*np.sqrt(dt*kw['x0'])
        x = np.linspace(kw['x0'] - 7*s, kw['x0'] + 7*s, 2001)
        d = ana.cir_pdf(dt, x, **kw)
        close(d.sum()*(x[1] - x[0]), 1., 'short time cir_pdf', 1e-4)
    if rec.get('pdf'):
        check_log_pdf(fam, rec, states[-1], kw)
    if not alt:
        return
    # all states of both records at once
    both = [values(fam, r, st, ana)[0] for r in (rec, alt)
            for st in states_of(r)[1:]]
    ts = [st['t'] for st in states[1:]]
    n = len(ts)
    kws = [kw, kwargs(fam, alt['par'])]
    for j, (name, v, _) in enumerate(both[0]):
        f = getattr(ana, name)
        want = np.array([[both[r*n + i][j][2] for i in range(n)]
                         for r in (0, 1)])
        var = [np.array([[both[r*n + i][j][1][h] for i in range(n)]
                         for r in (0, 1)]) for h in range(len(v))]
        if fam == 'hw2f':
            # factors along axis -2, then the alternatives
            arrays = {k: np.array([[w[k][i] for w in kws] for i in (0, 1)])
                      for k in ('x0', 'theta', 'k', 'sigma')}
            arrays['rho'] = np.array([w['rho'] for w in kws])
            got = f(np.array(ts)[:, None], *[x.T for x in var], **arrays)
            close(got, want.T, name + ' broadcast', RTOL, 1e-10)
            one = f(ts, *[list(x[0]) for x in var], **kw)
        else:
            arrays = {k: np.array([[w[k]] for w in kws]) for k in kw}
            got = f(np.array(ts), *var, **arrays)
            close(got, want, name + ' broadcast', RTOL, 1e-10)
            got = f(np.array(ts)[:, None, None], *[x.T[:, :, None]
                                                   for x in var],
                    **{k: a for k, a in arrays.items()})
            close(got[:, :, 0], want.T, name + ' broadcast', RTOL, 1e-10)
            one = f(ts, *[list(x[0]) for x in var], **kw)
        close(one, want[0], name + ' of a list', RTOL, 1e-10)


def expand(recs, npdf):
    """Pair each record with another of the same family and times."""
    groups = {}
    for r in recs:
        key = (r['fam'], tuple(h['t'] for h in r['hist']))
        groups.setdefault(key, []).append(r)
    out = []
    for key in sorted(groups):
        g = groups[key]
        for i, r in enumerate(g):
            o = dict(r, alt=g[(i*7 + 3) % len(g)])
            out.append(o)
        if key[0] in ('mjd', 'kou', 'heston'):
            step = max(1, len(g)//npdf)
            out += [dict(r, pdf=True) for r in g[::step]]
    return out


# ---- parameters left out ---------------------------------------------------

def replay_defaults(rec):
    fam = rec['fam']

    def args(d):
        return {k: q(v[0]) if len(v) == 1 else [q(z) for z in v]
                for k, v in (d or {}).items()}
    given, means = args(rec['given']), args(rec['means'])
    pres = ['bs'] if fam == 'bs' else [PREFIX[fam].replace('log_', '')] + (
        ['hw1f_'] if fam == 'oruh' else [])
    found = 0
    for pre in pres:
        for name in dir(ana):
            if not name.startswith(pre) or name == 'bs':
                continue
            f = getattr(ana, name)
            if not callable(f):
                continue
            found += 1
            if fam == 'bs':
                calls = [(1.25, .5), ([1.25, .5], [.5, 2.])]
            elif name.endswith(('_mean', '_var', '_std')):
                calls = [(.5,), ([.5, 2.],)]
            else:
                calls = [(.5, .75), ([.5, 2.], .75)]
            if name.endswith('_log_pdf'):
                # slow: a numerical integration
                if 1 < len(given) < len(means) - 1:
                    continue
                calls = calls[:1]
            for c in calls:
                got, want = f(*c, **given), f(*c, **means)
                close(np.asarray(got), np.asarray(want), '{}{} given {}'.format(
                    name, c, sorted(given)), 1e-12, 1e-12)
    need(found >= 3, fam, 'functions found:', found)
