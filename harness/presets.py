"""Binding of specs/Presets.tla to the built-in processes."""
import math
import numpy as np
from .core import Mismatch, need, close, import_sdepy
from .euler import Layout

NAMES = dict(wiener='wiener_process', lognorm='lognorm_process',
             ou='ornstein_uhlenbeck_process', hw='hull_white_process',
             hw1='hull_white_1factor_process',
             cir='cox_ingersoll_ross_process', heston='heston_process',
             full_heston='full_heston_process', jumpdiff='jumpdiff_process',
             merton='merton_jumpdiff_process', kou='kou_jumpdiff_process')
HESTON = ('heston', 'full_heston')
JUMPY = ('jumpdiff', 'merton', 'kou')
LOGS = ('lognorm',) + JUMPY + HESTON

OFFS = (0., 0, 0.5, -3.)


class Case:

    def __init__(self, rec, flavour):
        self.rec, self.cfg = rec, rec['cfg']
        c = self.cfg
        self.off = OFFS[flavour % 4]
        self.vshape, self.paths = tuple(c['vshape']), c['paths']
        self.name = c['name']
        self.factors = (c['factors'] if 'factors' in c['given'] else 1)
        self.full = self.vshape + (self.paths,)
        if self.name in HESTON:
            self.lay = Layout(dict(q=2, vshape=self.vshape, paths=self.paths,
                                   addaxis=self.vshape == ()))
            self.wshape = self.lay.wshape
            self.cellshape = self.full
        else:
            self.lay = None
            self.wshape = self.vshape + (
                (self.factors,) if self.name == 'hw' else ())
            self.cellshape = self.wshape + (self.paths,)
        self.dtype = int if flavour % 4 == 1 else float
        self.tl = np.array([t + self.off for t in c['tl']], dtype=self.dtype)
        self.flavour = flavour
        # as many jumps as this, in the place of each
        self.many = 1

    def noise(self, what, t, dt):
        s, ds = t - self.off, dt
        for z in self.rec['noise']:
            if z['s'] == s and z['ds'] == ds:
                return z
        raise Mismatch('source {} asked over ({}, {}), which is no step'
                       .format(what, t, dt))

    def dw(self):
        case = self

        class DW:
            paths, vshape = case.paths, case.wshape
            calls = 0

            def __call__(self, t, dt):
                DW.calls += 1
                z = case.noise('dw', t, dt)
                parts = [np.array([w['n']/w['d'] for w in e])
                         .reshape(case.cellshape) for e in z['w']]
                return case.lay.stack(parts) if case.lay else parts[0]
        return DW()

    def dj(self, expose=True):
        case = self

        class DJ:
            paths, vshape = case.paths, case.wshape

            def __call__(self, t, dt):
                z = case.noise('dj', t, dt)
                if expose:
                    self.dn_value = \
                        case.many*np.array(z['n']).reshape(case.full)
                return np.array(z['j'], dtype=float).reshape(case.full)
        return DJ()

    def param(self, sp, p, kind):
        a, b, c = (p[k] for k in 'abc')
        ax = self.cellshape[:-1] + (1,)
        comp = np.arange(int(np.prod(ax))).reshape(ax)
        scalar = self.cellshape[:-1] == () or c == 0

        def value(s):
            return a + b*(s - self.off) + (0 if scalar else c*comp)
        if kind == 0 and b == 0:
            return value(self.off)
        if kind == 1:
            t = np.array([-50., 50.]) + self.off
            return sp.process(t=t, x=np.array(
                [np.broadcast_to(value(s), ax if not scalar else
                                 (1,)*len(ax)) for s in t]))
        return value

    def build(self, sp, getinfo=True, **more):
        c = self.cfg
        kw = {}
        for n, p in enumerate(sorted(c['given'])):
            if p == 'factors':
                kw[p] = c['factors']
            elif p == 'x0':
                ax = self.cellshape
                k = np.arange(1, int(np.prod(ax)) + 1)
                if self.name == 'cir':
                    v = np.array([1, 4, 0, 9])[(c['x0']['x'] + k) % 4]*1.
                else:
                    v = c['x0']['x'] + (2.*k) % 3
                if self.name in LOGS:
                    v = np.exp(v/2)
                kw[p] = v.reshape(ax)
            elif p == 'y0':
                k = np.arange(1, int(np.prod(self.full)) + 1)
                kw[p] = (np.array([1, 4, 0, 9])[(c['x0']['y'] + k) % 4]*1.
                         ).reshape(self.full)
            else:
                kw[p] = self.param(sp, c['par'][p], (self.flavour//4 + n) % 3)
        kw['dw'] = self.dw()
        if self.name in JUMPY:
            kw['dj'] = self.dj()
        st = c['steps']
        steps = (None if st['kind'] == 'none' else st['n']
                 if st['kind'] == 'count' else
                 [t + self.off for t in st['times']])
        kw.update(more)
        return getattr(sp, NAMES[self.name])(
            paths=self.paths, vshape=self.vshape, i0=c['i0'] - 1, steps=steps,
            getinfo=getinfo, **kw)

    def expected(self, e):
        x = np.array([o[e] for o in self.rec['out']], dtype=float)
        x = x.reshape(self.tl.shape + self.full)
        if e == 0 and self.name in LOGS:
            x = np.exp(x/2)
        return x


def make(rec):
    c = rec['cfg']
    h = (sum(c['tl']) + 3*c['i0'] + 5*len(c['given']) + c['par']['mu']['a']
         + 7*c['paths'] + 11*len(c['vshape']) + c['factors'] + c['seed'])
    return Case(rec, h % 24)


def too_big(rec):
    c = rec['cfg']
    return c['name'] in LOGS and any(
        abs(v) > 600 for o in rec['out'] for v in o[0])


def replay(rec):
    """outputs of the process"""
    if too_big(rec):
        return
    sp = import_sdepy()
    case = make(rec)
    obj = case.build(sp)
    for run in (0, 1):
        r = obj(case.tl)
        if case.name == 'full_heston':
            need(isinstance(r, tuple) and len(r) == 2, 'two processes')
        else:
            need(isinstance(r, sp.process), 'result', type(r))
            r = (r,)
        for e, p in enumerate(r):
            need(np.array_equal(p.t, case.tl), 'timeline', p.t)
            close(np.asarray(p), case.expected(e), '{} output {} run {}'.format(
                case.name, e, run), rtol=1e-8, atol=1e-8)


def replay_info(rec):
    """diagnostic information, and its absence"""
    if too_big(rec):
        return
    sp = import_sdepy()
    case = make(rec)
    c = rec['cfg']
    if c['name'] in JUMPY:
        case.many = {0: 30000, 1: 10**8}.get(case.flavour//2 % 6, 1)
    given = {} if case.flavour % 2 else None
    obj = case.build(sp, info=given)
    if given is not None:
        need(obj.info is given, 'info dictionary given is not the one used')
    for run in (0, 1):
        r1 = obj(case.tl)
        i = obj.info
        for key, v in dict(t0=case.tl[c['i0'] - 1], tmin=case.tl[0],
                           tmax=case.tl[-1], computed_steps=rec['ncomp'],
                           stored_steps=rec['nstore']).items():
            need(i[key] == v, 'info', key, 'is', i[key], 'expected', v,
                 'run', run)
        one_way = c['i0'] in (1, len(c['tl']))
        if case.name in HESTON and one_way:
            close(i['negative_y_count'],
                  np.array(rec['negy']).reshape(case.full),
                  'negative_y_count run {}'.format(run), exact=True)
        if case.name in JUMPY and one_way:
            close(i['jump_count'], case.many*np.array(rec['jcount']).reshape(case.full),
                  'jump_count run {}'.format(run), exact=True)
            n = len(c['tl'])
            # intervals as they are crossed
            tl = c['tl'] if c['i0'] == 1 else c['tl'][::-1]
            rate = [case.many*rec['jrate'][k]/(tl[k + 1] - tl[k])/case.paths
                    for k in range(n - 1)]
            rate = rate + rate[-1:] if rate else [0.]
            close(i['jump_rate'], rate, 'jump_rate run {}'.format(run))
        if run == 0 and len(case.tl) > 2 and c['i0'] == 1 \
                and c['steps']['kind'] != 'count':
            # a shorter run in between
            obj(case.tl[:2])
            need(obj.info['tmax'] == case.tl[1] and
                 obj.info['stored_steps'] == 1, 'info of a shorter run',
                 obj.info['tmax'], obj.info['stored_steps'])
    off = case.build(sp, getinfo=False)
    r2 = off(case.tl)
    need(off.info == {}, 'information recorded though disabled', off.info)
    for a, b in zip(r1 if isinstance(r1, tuple) else (r1,),
                    r2 if isinstance(r2, tuple) else (r2,)):
        need(np.array_equal(np.asarray(a), np.asarray(b)),
             'values depend on getinfo')
