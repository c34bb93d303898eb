"""Shared machinery: run TLC, export behaviours, replay them into sdepy,
validate recorded traces, report violations, write evidence."""
import fnmatch
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SDEPY_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
JAR = '/opt/veriftools/tla/tla2tools.jar:' \
      '/opt/veriftools/tla/CommunityModules-deps.jar'
WORKERS = max(1, min(8, os.cpu_count() or 1))


class Machinery(Exception):
    """A failure of the framework itself (never of the code under test)."""


class Mismatch(Exception):
    """Observed behaviour of the code differs from the specification."""


class Timeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Timeout()


def guarded(fn, rec, limit):
    """Evaluate fn(rec); returns None, or a description of what failed.
    Any exception, wrong result or hang counts as a failure."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(rec)
        return None
    except Mismatch as e:
        return str(e) or 'mismatch'
    except Timeout:
        return 'no termination within {} s'.format(limit)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('{}:{} {}'.format(os.path.basename(f.filename),
                                              f.lineno, f.name)
                            for f in reversed(tb[-4:]))
        return 'unexpected {}: {} [{}]'.format(
            type(e).__name__, str(e)[:300], where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _run_items(fn, items, limit, maxfail, out=None):
    done, fails = 0, []
    for i, r in items:
        if out is not None:
            out.write('S %d\n' % i)
            out.flush()
        w = guarded(fn, r, limit)
        done += 1
        if w is not None:
            fails.append((i, w))
            if out is not None:
                out.write('F ' + json.dumps([i, w]) + '\n')
            if len(fails) >= maxfail:
                break
    if out is not None:
        out.write('D %d\n' % done)
        out.flush()
    return done, fails


def _run_parallel(fn, items, limit, maxfail, tmp, deadline):
    """Stripe the items over forked workers, each reporting in a file."""
    sys.stdout.flush()
    sys.stderr.flush()
    n = min(WORKERS, max(1, len(items)//20))
    procs = []
    for w in range(n):
        path = os.path.join(tmp, 'worker-%d' % w)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                with open(path, 'w') as out:
                    _run_items(fn, items[w::n], limit, maxfail, out)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        procs.append((pid, path))
    done, fails = 0, []
    t1 = time.time() + deadline
    for pid, path in procs:
        status = None
        while status is None:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status = st
            elif time.time() > t1:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                status = -1
            else:
                time.sleep(0.02)
        last, fin = None, False
        with open(path) as f:
            for l in f:
                if l[0] == 'S':
                    last = int(l[2:])
                elif l[0] == 'F':
                    fails.append(tuple(json.loads(l[2:])))
                elif l[0] == 'D':
                    done += int(l[2:])
                    fin = True
        os.remove(path)
        if not fin:
            if last is None:
                raise Machinery('replay worker died, status %r' % status)
            fails.append((last, 'the process replaying this behaviour died '
                          'or hung (status %r)' % status))
    return done, fails


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('open', [])


class Check:

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.parts, self.failures = [], [], []
        self.assumptions = []
        self.exhaustive = True
        self.known = [k for k in load_known() if k['property'] == pid]
        self.known_hit = {}
        self.outdir = os.path.join(VERIF, 'out', pid)
        self.replaying = None
        os.makedirs(self.outdir, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix='verif-' + pid + '-')

    @property
    def quick(self):
        return self.tier == 'quick'

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, *, env=None, simulate=None, depth=None,
            timeout=800, workers=None, exhaustive=True):
        """Run TLC on specs/<module>.tla with specs/<cfg>.cfg.
        Returns the list of exported records (deduplicated, sorted)."""
        out = os.path.join(self.tmp, 'export-%d.txt' % len(self.parts))
        md = tempfile.mkdtemp(prefix='md', dir=self.tmp)
        open(out, 'w').close()
        e = dict(os.environ)
        e['OUT'] = out
        e.update(env or {})
        # private JVM temporary files, heap within reason
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-Xss64m',
               '-Djava.io.tmpdir=' + self.tmp,
               '-cp', JAR, 'tlc2.TLC', '-metadir', md,
               '-noGenerateSpecTE', '-workers', str(workers or WORKERS),
               '-config', cfg + '.cfg']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate,
                    '-depth', str(depth or 100), '-seed', str(self.seed)]
        cmd += [module + '.tla']
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPECS, env=e, timeout=timeout,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on {} {}'.format(module, cfg))
        log = p.stdout
        shutil.rmtree(md, ignore_errors=True)
        if p.returncode != 0:
            raise Machinery('TLC failed on {} {} (exit {}):\n{}'.format(
                module, cfg, p.returncode, log[-6000:]))
        m = re.findall(r'(\d[\d,]*) states generated(?:, (\d[\d,]*) distinct)?', log)
        if simulate:
            m2 = re.findall(r'The number of states generated: (\d[\d,]*)', log)
            gen = int(m2[-1].replace(',', '')) if m2 else 0
            dist = gen
        elif m:
            gen = int(m[-1][0].replace(',', ''))
            dist = int((m[-1][1] or m[-1][0]).replace(',', ''))
        else:
            raise Machinery('no statistics in TLC output:\n' + log[-3000:])
        self.states += dist
        self.transitions += gen
        with open(out) as f:
            lines = sorted(set(f.read().splitlines()))
        os.remove(out)
        recs = []
        try:
            for l in lines:
                r = json.loads(l)
                if isinstance(r, str):
                    r = json.loads(r)
                recs.append(r)
        except ValueError:
            # workers of TLC may interleave long lines
            if workers == 1:
                raise
            self.states -= dist
            self.transitions -= gen
            return self.tlc(module, cfg, env=env,
                            simulate=simulate and simulate*WORKERS,
                            depth=depth, timeout=timeout, workers=1,
                            exhaustive=exhaustive)
        if simulate or not exhaustive:
            self.exhaustive = False
        self.parts.append(dict(spec=module, config=cfg, states=dist,
                               transitions=gen, exported=len(recs),
                               longest=max(map(len, lines), default=0),
                               workers=workers or WORKERS,
                               mode='simulate' if simulate else 'exhaustive',
                               wall_s=round(time.time() - t0, 2)))
        return recs

    # ---- specification -> code ------------------------------------------
    def replay(self, kind, recs, fn, *, limit=20., minimum=1, maxfail=20,
               parallel=True, deadline=700., cap=None):
        """Replay each exported record into the code with fn(rec), or cap
        of them, evenly spread."""
        if self.replaying is not None:
            return
        if len(recs) < minimum:
            raise Machinery('{}: only {} behaviours exported'.format(
                kind, len(recs)))
        if cap and len(recs) > cap:
            step = len(recs)/cap
            recs = [recs[int(i*step)] for i in range(cap)]
            self.exhaustive = False
        t0 = time.time()
        items = list(enumerate(recs))
        if parallel and len(items) > 40 and WORKERS > 1:
            done, fails = _run_parallel(fn, items, limit, maxfail, self.tmp,
                                        deadline)
        else:
            done, fails = _run_items(fn, items, limit, maxfail)
        for i, why in sorted(fails):
            self.fail(kind, recs[i], why)
        self.validated += done
        self.parts.append(dict(replayed=kind, behaviours=done,
                               failures=len(fails),
                               wall_s=round(time.time() - t0, 2)))
        if recs and len(self.samples) < 6:
            self.samples.append({'replayed': kind,
                                 'behaviour': recs[len(recs)//2]})

    # ---- code -> specification ------------------------------------------
    def record(self, kind, n, fn, *, limit=20.):
        """Record traces from the code, driven by fn(item), a JSON-able
        trace: for n seeds, or for each behaviour in a list. A driver that
        raises is a failure of the code."""
        items = [self.seed*1000003 + i for i in range(n)] \
            if isinstance(n, int) else n
        traces = []
        for s in items:
            box = []
            why = guarded(lambda r: box.append(fn(r)), s, limit)
            if why is not None:
                self.fail(kind, {'driver': s}, why)
                if len(self.failures) > 20:
                    break
            else:
                traces.append(box[0])
        return traces

    def validate(self, kind, module, cfg, traces, *, env=None, timeout=800):
        """Have TLC decide, for each recorded trace, whether the
        specification allows it. The trace specification exports one verdict
        [i |-> trace number (1-based), ok |-> BOOLEAN, at |-> event, why |-> clause]
        per trace."""
        if not traces:
            return
        path = os.path.join(self.tmp, 'traces-%d.ndjson' % len(self.parts))
        with open(path, 'w') as f:
            for t in traces:
                f.write(json.dumps(t) + '\n')
        e = {'TRACES': path}
        e.update(env or {})
        verdicts = self.tlc(module, cfg, env=e, timeout=timeout)
        got = {}
        for v in verdicts:
            # a trace is accepted if some execution of the specification
            # explains it
            if v['i'] not in got or v['ok']:
                got[v['i']] = v
        self.exhaustive = False
        for i, t in enumerate(traces, 1):
            v = got.get(i)
            if v is None:
                raise Machinery('{}: no verdict for trace {}'.format(kind, i))
            if not v['ok']:
                self.fail(kind, t, 'trace rejected at event {}: {}'.format(
                    v.get('at'), v.get('why')))
        self.validated += len(traces)
        self.parts.append(dict(trace_validated=kind, traces=len(traces)))
        if len(self.samples) < 6:
            t = traces[0]
            s = json.dumps(t)
            self.samples.append({'validated': kind,
                                 'trace': t if len(s) < 4000 else s[:4000]})
        os.remove(path)

    # ---- reporting ------------------------------------------------------
    def fail(self, kind, rec, why):
        text = kind + ' ' + json.dumps(rec, sort_keys=True) + ' ' + why
        for k in self.known:
            if fnmatch.fnmatchcase(text, k['match']):
                self.known_hit[k['id']] = k
                return
        self.failures.append((kind, rec, why))

    def finish(self):
        wall = time.time() - self.t0
        for k in self.known:
            print('KNOWN-FINDING: property={} {}'.format(
                self.pid, k['what']))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   samples=self.samples, exhaustive=bool(self.exhaustive),
                   parts=self.parts)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.failures))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if not self.failures:
            print('OK property={} tier={} states={} validated={} wall={:.1f}s'
                  .format(self.pid, self.tier, self.states, self.validated,
                          wall))
            return 0
        n = 0
        for kind, rec, why in self.failures[:3]:
            n += 1
            path = os.path.join(self.outdir, 'replay-{}-{}.json'.format(
                self.tier, n))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                               kind=kind, why=why, record=rec), f, indent=1)
            print('  {}: {}'.format(kind, why[:700]))
            print('VIOLATION property={} replay={}'.format(self.pid, path))
        if len(self.failures) > 3:
            print('  ({} failures in all)'.format(len(self.failures)))
        return 1


# ---- import of the code under test -------------------------------------

def import_sdepy():
    import warnings
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    import scipy.stats, scipy.interpolate, scipy.special, scipy.integrate  # noqa
    import scipy.optimize  # noqa
    # compile sdepy from its current sources: never trust byte code left there
    prefix, sys.pycache_prefix = sys.pycache_prefix, '/nonexistent-pycache'
    try:
        import sdepy
        import sdepy.shortcuts  # noqa
    finally:
        sys.pycache_prefix = prefix
    f = os.path.realpath(sdepy.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise Machinery('sdepy imported from ' + f)
    return sdepy


# ---- comparison helpers ------------------------------------------------

def need(cond, *msg):
    if not cond:
        raise Mismatch(' '.join(str(m) for m in msg))


def num(v):
    """<<n, d>> or plain number -> float (exact for dyadic values)."""
    if isinstance(v, (list, tuple)):
        return v[0]/v[1]
    return float(v)


def arr(v):
    import numpy as np
    return np.array(v, dtype=float)


def close(a, b, what, rtol=1e-9, atol=1e-9, exact=False):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, what, ': shape', a.shape, 'instead of', b.shape)
    if exact:
        ok = np.array_equal(a, b) or bool(
            np.all((a == b) | ((a != a) & (b != b))))
    else:
        ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    need(ok, what, ': got', a.tolist(), 'expected', b.tolist())


def expect_error(fn, types, what):
    try:
        r = fn()
    except types:
        return
    except Timeout:
        raise
    except Exception as e:
        raise Mismatch('{}: raised {} ({}) instead of {}'.format(
            what, type(e).__name__, str(e)[:200], types))
    raise Mismatch('{}: accepted, returned {!r:.200}'.format(what, r))
