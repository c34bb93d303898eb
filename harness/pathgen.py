"""Binding of specs/PathGen.tla to sdepy.paths_generator."""
import numpy as np
from .core import Mismatch, need, import_sdepy

# ticks -> times, all exact; the int gives integer timelines, the last
# three put distinct times very close together, or very far apart
SCALES = (0.25, 1., 1, 0.5, 2.**-40, 2.**-24, 2.**40)
OFFSETS = (0., -3., 2, 0., 0., 2.**22, -2.**50)
NV = len(SCALES)
SHAPES = [((), ()), ((2,), (3,)), ((), (2,)), ((1, 2), (2,))]
ARGS = [((), ()), ((2,), (3,)), ((), 2), ((1, 2), 2)]


class Bad(Exception):
    pass


def make_timeline(ticks, variant, h=0):
    sc, off = SCALES[variant], OFFSETS[variant]
    tt = [t*sc + off for t in ticks]
    if variant == 2:
        # unsigned integers cannot hold differences, nor fractional steps
        small = np.uint8 if max(tt) < 150 else np.uint16
        dtype = (int, small, np.int32, np.uint64)[h % 4 if min(tt) >= 0 else 0]
        return np.array([int(t) for t in tt], dtype=dtype)
    dtype = np.float32 if variant in (0, 1, 3) and h % 4 == 3 else float
    return np.array(tt, dtype=dtype)


def tomodel(s, variant):
    return (float(s) - OFFSETS[variant])/SCALES[variant]


def steps_arg(steps, variant, flavour):
    if steps['kind'] == 'none':
        return None
    if steps['kind'] == 'count':
        return (int, np.int64, np.uint16, int)[flavour % 4](steps['n'])
    ss = [t*SCALES[variant] + OFFSETS[variant] for t in steps['times']]
    return (list, tuple, np.array, Again, set,
            lambda z: dict.fromkeys(z[::-1]), np.flip)[flavour % 7](ss)


class Again:
    """An iterable, and nothing else."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items[::-1])


def build(sp, variant):
    xshape, wshape = SHAPES[variant % 4]
    paths = (1, 2, 3, 1)[variant % 4]

    class G(sp.paths_generator):
        depth = 2

        def play(self, choices):
            self.choices = list(choices)
            self.log = []

        def _win(self, iv):
            return [tomodel(s, variant) for s in iv['sw'][:-1]]

        def _check_win(self, iv):
            # each value in the window was computed for the time beside it
            for s, x in zip(iv['sw'][:-1], iv['xw'][:-1]):
                need(x.shape == wshape + (paths,), 'working shape', x.shape)
                need(np.all(x == self.code(s)),
                     'window value', x.tolist(), 'does not belong to time', s)

        def code(self, s):
            return (2000. if self.itervars['reverse'] else 1000.) + \
                tomodel(s, variant)

        def begin(self):
            iv = self.itervars
            d = 'b' if iv['reverse'] else 'f'
            need(len(iv['sw']) == self.depth and len(iv['xw']) == self.depth,
                 'window size', len(iv['sw']))
            need(iv['xx'].shape == iv['tt'].shape + xshape + (paths,), 'xx shape')
            for k in range(self.depth - 1):
                iv['xw'][k][...] = self.code(iv['sw'][k])
            self.log.append(dict(
                e='begin', d=d, win=self._win(iv),
                route=[tomodel(s, variant) for s in iv['steps_tt']],
                outs=[tomodel(s, variant) for s in iv['tt']]))

        def next(self):
            iv = self.itervars
            self._check_win(iv)
            sw, xw = iv['sw'], iv['xw']
            target = tomodel(sw[-1], variant)
            if self.choices:
                to, kind = self.choices.pop(0)
            else:
                to, kind = target, 'next'
            self.log.append(dict(e=kind, win=self._win(iv), target=target,
                                 to=to,
                                 nextout=tomodel(iv['tt'][iv['i']], variant)))
            if to != target:
                sw[-1] = to*SCALES[variant] + OFFSETS[variant]
            xw[-1][...] = self.code(sw[-1])

        def store(self, i, k):
            iv = self.itervars
            s, x = iv['sw'][k], iv['xw'][k]
            need(iv['tt'][i] == s, 'store called with output time',
                 iv['tt'][i], 'at time', s)
            need(np.all(x == self.code(s)), 'stored value does not belong to time')
            iv['xx'][i][...] = x[:1] if len(wshape) else x
            self.log.append(dict(e='store', t=tomodel(s, variant),
                                 d='b' if iv['reverse'] else 'f'))

        def end(self):
            self.log.append(dict(
                e='end', d='b' if self.itervars['reverse'] else 'f'))

        def exit(self, tt, xx):
            self.log.append(dict(e='exit'))
            return tt, xx
    return G, xshape, paths


def norm(log):
    return [{k: ([float(a) for a in v] if isinstance(v, list) else
                 float(v) if isinstance(v, int) else v)
             for k, v in e.items()} for e in log]


def replay(rec):
    sp = import_sdepy()
    cfg, want = rec['cfg'], norm(rec['log'])
    h = sum(cfg['tl']) + cfg['i0'] + 7*len(want) + 3*cfg['K']
    n = len(cfg['tl'])
    for variant in (h % NV, (h + 3) % NV, (h + 4) % NV):
        if variant == 2 and any(t % 1 for t in cfg['tl']):
            continue
        G, xshape, paths = build(sp, variant)
        tl = make_timeline(cfg['tl'], variant, h//3)
        i0 = cfg['i0'] - 1
        if (h//4) % 2 and n > 1:
            i0 -= n      # the same start time, as a negative index
        xs, ws = ARGS[variant % 4]
        g = G(paths=paths, xshape=xs, wshape=ws, i0=i0,
              steps=steps_arg(cfg['steps'], variant, h))
        g.depth = cfg['K']
        choices = [(e['to'], e['e']) for e in rec['log']
                   if e['e'] in ('next', 'bad')]
        for run in range(3):
            if run == 1:
                if cfg['K'] > 2:
                    continue
                # an unrelated run in between, must leave no trace
                g.play([])
                try:
                    g(tl + (100 if variant == 2 else 100.))
                except Mismatch:
                    raise
                except Exception as e:
                    raise Mismatch('run on a shifted timeline raised '
                                   '{!r}'.format(e))
                continue
            g.play(choices)
            arg = (tl, tl.tolist(), tuple(tl.tolist()))[(h + run) % 3]
            if rec['phase'] == 'error':
                try:
                    g(arg)
                except RuntimeError:
                    pass
                else:
                    raise Mismatch('illegal step accepted')
                got = norm(g.log)
                need(got == want, 'callbacks', got, 'expected', want)
                continue
            tt, xx = g(arg)
            got = norm(g.log)
            if got != want:
                for a, b in zip(got + [None]*len(want), want + [None]*len(got)):
                    if a != b:
                        raise Mismatch('variant {} run {}: callback {} instead '
                                       'of {}'.format(variant, run, a, b))
            need(np.array_equal(tt, tl), 'output timeline', tt)
            need(np.asarray(tt).dtype == np.asarray(arg).dtype,
                 'timeline of', np.asarray(arg).dtype, 'returned as',
                 np.asarray(tt).dtype)
            need(xx.shape == (n,) + xshape + (paths,), 'output shape', xx.shape)
            for j, (t, d) in enumerate(zip(cfg['tl'], rec['out'])):
                v = (2000. if d == 'b' else 1000.) + t
                need(np.all(xx[j] == v), 'output at', t, 'is', xx[j].tolist(),
                     'expected', v)


def check_run(g, tl, run, variant, cfgtl, xshape, paths, label):
    """One run of g, as prescribed."""
    want = norm(run['log'])
    g.play([(e['to'], e['e']) for e in run['log'] if e['e'] in ('next', 'bad')])
    if run['phase'] == 'error':
        try:
            g(tl)
        except RuntimeError:
            pass
        else:
            raise Mismatch('illegal step accepted')
    else:
        tt, xx = g(tl)
    got = norm(g.log)
    if got != want:
        for a, b in zip(got + [None]*len(want), want + [None]*len(got)):
            need(a == b, label, 'callback', a, 'instead of', b)
    if run['phase'] == 'error':
        return
    need(np.array_equal(tt, tl), label, 'output timeline', tt)
    need(xx.shape == (len(cfgtl),) + xshape + (paths,), label, 'output shape',
         xx.shape)
    for j, (t, d) in enumerate(zip(cfgtl, run['out'])):
        v = (2000. if d == 'b' else 1000.) + t
        need(np.all(xx[j] == v), label, 'output at', t, 'is', xx[j].tolist(),
             'expected', v)


def replay_runs(rec):
    """A sequence of runs of one object."""
    sp = import_sdepy()
    giv, runs = rec['given'], rec['runs']
    h = sum(sum(r['tl']) + len(r['log']) for r in runs) + giv['j']
    variant = (0, 1, 3, 4, 5, 6)[h % 6]
    G, xshape, paths = build(sp, variant)
    xs, ws = ARGS[variant % 4]
    g = G(paths=paths, xshape=xs, wshape=ws,
          i0=-giv['j'] if giv['neg'] else giv['j'] - 1,
          steps=steps_arg(giv['steps'], variant, h))
    g.depth = giv['K']
    buf = None
    for n, run in enumerate(runs):
        tl = make_timeline(run['tl'], variant, h + n)
        if h % 3 == 0 and buf is not None and buf.shape == tl.shape:
            buf[...] = tl       # the caller makes use of the same array
            tl = buf
        buf = tl
        if run['log'] == [{'e': 'reject'}]:
            bad = [tl]
            tks = run['tl']
            if any(a >= b for a, b in zip(tks, tks[1:])):
                bad += [np.array(tks, dtype=int), [0., np.nan, 1.], [0., 1., np.nan],
                        [[0., 1.], [2., 3.]]]
            for z in bad:
                g.play([])
                try:
                    g(z)
                except Mismatch:
                    raise
                except Exception:
                    need(g.log == [], 'callbacks on a timeline rejected')
                    continue
                raise Mismatch('timeline {!r} accepted'.format(z))
            continue
        check_run(g, tl, run, variant, run['tl'], xshape, paths,
                  'variant {} run {}:'.format(variant, n))


def replay_info(rec):
    """Diagnostic information of a run with given (adaptive) steps."""
    sp = import_sdepy()
    cfg = rec['cfg']
    variant = (0, 1, 3, 4, 5, 6)[(sum(cfg['tl']) + len(rec['log'])) % 6]
    G, xshape, paths = build(sp, variant)
    tl = make_timeline(cfg['tl'], variant, len(rec['log'])//6)
    xs, ws = ARGS[variant % 4]
    ncomp, nstore, last = 0, 0, None
    for e in rec['log']:
        if e['e'] == 'next':
            ncomp += 1
        if e['e'] == 'store' and last == 'next':
            nstore += 1
        last = e['e']
    choices = [(e['to'], e['e']) for e in rec['log'] if e['e'] == 'next']
    given = {} if len(choices) % 2 else None
    outs = []
    for getinfo in (True, False):
        g = G(paths=paths, xshape=xs, wshape=ws, i0=cfg['i0'] - 1,
              steps=steps_arg(cfg['steps'], variant, ncomp), info=given,
              getinfo=getinfo)
        g.depth = cfg['K']
        for run in range(2):
            g.play(choices)
            outs.append(g(tl)[1])
            if getinfo:
                for k, v in dict(t0=tl[cfg['i0'] - 1], tmin=tl[0], tmax=tl[-1],
                                 computed_steps=ncomp,
                                 stored_steps=nstore).items():
                    need(g.info[k] == v, 'info', k, 'is', g.info[k],
                         'expected', v, 'run', run)
                if given is not None:
                    need(g.info is given, 'given info dictionary not used')
            elif given is not None:
                need(g.info == {}, 'information recorded though disabled')
        if given is not None:
            given.clear()
    for o in outs:
        need(np.array_equal(o, outs[0]), 'values depend on getinfo')
