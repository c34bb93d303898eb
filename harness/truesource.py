"""Binding of specs/TrueSource.tla to true_source and its subclasses."""
import numpy as np
from .core import Mismatch, need, close, import_sdepy

VSHAPE, PATHS = (3, 2), 2
VIEWS = {1: 1, 2: slice(0, 2), 3: (slice(None), 1), 4: (2, 0)}
FULL = VSHAPE + (PATHS,)


def real(key, delta):
    k, o = key['k'], key['o']
    return float(k) + o*delta*abs(k)


class Mirror:
    """What the callbacks of a true_source subclass must be given."""

    def __init__(self, origin, rtol):
        self.known = [(float(origin), None)]
        self.rtol = rtol

    def add(self, s, z):
        for u, _ in self.known:
            need(abs(u - s) > self.rtol*abs(u), 'value generated at', s,
                 'though known at', u)
        self.known.append((s, z))
        self.known.sort(key=lambda p: p[0])

    def value(self, t, z, what):
        for u, v in self.known:
            if u == t:
                need(v is None or np.array_equal(v, z), what, 'at', t,
                     'is not the value generated there')
                return
        raise Mismatch('{} time {} is not a known time'.format(what, t))

    def outside(self, z, t, s):
        ts = [u for u, _ in self.known]
        need((t == ts[-1] and s > t) or (t == ts[0] and s < t),
             'new_outside called from', t, 'to', s, 'known', ts)
        self.value(t, z, 'new_outside')

    def inside(self, z1, z2, t1, t2, s):
        ts = [u for u, _ in self.known]
        need(t1 in ts and t2 in ts and ts.index(t2) == ts.index(t1) + 1
             and t1 < s < t2, 'new_inside called for', s, 'between', t1, t2,
             'known', ts)
        self.value(t1, z1, 'new_inside')
        self.value(t2, z2, 'new_inside')


def scripted(sp, origin, rtol):
    mirror = Mirror(origin, rtol)
    count = [0]
    comp = np.arange(np.prod(FULL)).reshape(FULL)

    class Scripted(sp.true_source):
        def new(self, s):
            count[0] += 1
            z = 1000.*count[0] + comp
            mirror.add(s, z)
            return z.copy()

        def new_outside(self, z, t, s):
            mirror.outside(z, t, s)
            return self.new(s)

        def new_inside(self, z1, z2, t1, t2, s):
            mirror.inside(z1, z2, t1, t2, s)
            return self.new(s)
    return Scripted(paths=PATHS, vshape=VSHAPE, t0=origin, z0=-7.,
                    rtol=rtol), -7.


def make(sp, which, origin, tol, seed):
    rtol = (0. if tol == 0 else (1e-6, 1e-15, 1e-9)[seed % 3])
    arg = 'max' if rtol == 1e-15 else rtol
    rng = np.random.default_rng(seed)
    kw = dict(paths=PATHS, vshape=VSHAPE, rng=rng, rtol=arg, t0=origin)
    if which == 'scripted':
        src, z0 = scripted(sp, origin, rtol)
        if rtol == 1e-15:
            src.rtol = sp.true_source(rtol='max').rtol
    elif which == 'wiener':
        src, z0 = sp.true_wiener_source(z0=2.5, **kw), 2.5
    elif which == 'wiener_corr':
        src, z0 = sp.true_wiener_source(
            z0=1., corr=(lambda t: np.array(((1., t/50), (t/50, 1.)))), **kw), 1.
    elif which == 'poisson':
        src, z0 = sp.true_poisson_source(z0=4, lam=(0.3, 2.)[seed % 2], **kw), 4
    else:
        src, z0 = sp.true_cpoisson_source(
            z0=1.5, lam=(0.3, 2.)[seed % 2], y=sp.norm_rv(), **kw), 1.5
    return src, z0, rtol


WHICH = ('wiener', 'poisson', 'cpoisson', 'wiener_corr')


def replay(rec):
    sp = import_sdepy()
    h = sum(e['n']*(i + 1) + e['via'] + len(e['arg']['ts'])
            for i, e in enumerate(rec['log']))
    h += sum(k['k'] for k in rec['mem'])
    drive(sp, rec, 'scripted', h)
    # correlations t/50 are such for |t| <= 50
    n = 4 if all(abs(k['k']) <= 50 for k in rec['mem']) else 3
    drive(sp, rec, WHICH[h % n], h//4)


def drive(sp, rec, which, seed):
    origin = rec['origin']
    src, z0, rtol = make(sp, which, origin, rec['tol'], seed)
    delta = 0.6*rtol if rtol else 1e-9
    values = {(origin, 0): np.full(FULL, z0)}
    known = {float(origin)}
    exact = which in ('scripted', 'wiener', 'wiener_corr')
    views = {}

    def same(key, z, what):
        k = (key['k'], key['o'])
        if k not in values:
            # the first value given at this time: keep it
            values[k] = np.array(z)
        need(np.array_equal(values[k], z), what, 'at', k, 'is', z.tolist(),
             'was', values[k].tolist())
    for n, e in enumerate(rec['log']):
        a, via = e['arg'], e['via']
        if via:
            if via not in views or n % 2:
                views[via] = src[VIEWS[via]]
            obj, index = views[via], VIEWS[via]
            need(obj.paths == PATHS, 'view paths')
        else:
            obj, index = src, ()
        index = index if isinstance(index, tuple) else (index,)
        ts = [real(k, delta) for k in a['ts']]
        shape = {'scalar': (), 'vector': (len(ts),), 'matrix': (2, -1)}[a['shape']]

        def shaped(v):
            if a['shape'] == 'scalar':
                return (v[0], np.array(v[0]), np.float64(v[0]))[n % 3]
            z = np.array(v, dtype=float).reshape(shape)
            return z.tolist() if n % 2 and z.size else z
        what = '{} op {} ({} via {})'.format(which, n, e['op'], via)
        if e['op'] == 'q':
            args = (shaped(ts),)
        else:
            dts = a['dts']
            dt = (shaped(dts) if len(set(dts)) > 1 or a['shape'] == 'scalar'
                  else dts[0])
            t = ts[0] if len(set(ts)) == 1 and len(ts) > 1 and n % 2 else shaped(ts)
            if np.ndim(t) == 0 and np.ndim(dt) == 0 and a['shape'] != 'scalar':
                t = shaped(ts)
            args = (t, dt)
        given = [np.array(x) for x in args]
        z = np.asarray(obj(*args))
        for x, y in zip(args, given):
            need(np.array_equal(x, y), what, 'times given as', y.tolist(),
                 'changed to', np.asarray(x).tolist())
        returned = [z]
        tail = np.empty(FULL)[index].shape
        if via:
            need(obj.vshape == tail[:-1], what, 'view vshape', obj.vshape,
                 'expected', tail[:-1])
        tshape = () if a['shape'] == 'scalar' else np.empty(len(ts)).reshape(shape).shape
        need(z.shape == tshape + tail, what, 'shape', z.shape, 'expected',
             tshape + tail)
        z = z.reshape((len(ts),) + tail)
        for i, rep in enumerate(e['reps']):
            k = (rep['k'], rep['o'])
            if e['op'] == 'q' and not via:
                same(rep, z[i], what)
            else:
                # ask the source itself for the values involved: they are
                # known now, so that asking changes nothing
                keys = [rep] + (e['base'][i:i + 1] if e['op'] == 'inc' else [])
                vals = []
                for key in keys:
                    v = np.asarray(src(real(key, delta)))
                    returned.append(v)
                    same(key, v, what + ' (value)')
                    vals.append(v)
                want = vals[0] if len(vals) == 1 else vals[0] - vals[1]
                close(z[i], want[index], what, exact=(len(vals) == 1),
                      rtol=1e-12, atol=1e-12)
        # what was returned belongs to the caller, who is free to change it
        for y in returned:
            if y.flags.writeable:
                y[...] = -99
        ts_known = np.asarray(src.t)
        need(np.all(np.diff(ts_known) > 0), what, 'known times not sorted',
             ts_known)
        need(float(origin) in ts_known, what, 'origin not among', ts_known)
        if exact:
            need(len(ts_known) == e['n'], what, 'known times', ts_known,
                 'expected', e['n'])
    if exact:
        want = [real(k, delta) for k in rec['mem']]
        need(np.array_equal(src.t, want), which, 'known times', src.t, 'expected',
             want)
        for v in views.values():
            need(np.array_equal(v.t, want), 'known times of view', v.t)
    # everything is still there
    for k, v in values.items():
        z = np.asarray(src(real(dict(k=k[0], o=k[1]), delta)))
        need(np.array_equal(z, v), which, 'value at', k, 'changed from',
             v.tolist(), 'to', z.tolist())
