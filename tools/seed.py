#!/usr/bin/env python3
"""Try planted bugs, and keep those that count under seeded/.

usage: seed.py try  FILE...      build, demo, tests and own check of each
       seed.py check ID... [-- PROPERTY...]   run checks on stored bugs

FILE defines PROP, FILE, EDITS [(old, new)], DEMO (python source), NEEDS,
BREAKS. Everything runs in scratch copies of /repo under /tmp/mut."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '0445e92'
DEMO_SH = '''#!/bin/bash
# run with cwd at the repository root
H=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
P=$(mktemp -d); trap 'rm -rf "$P"' EXIT
export PYTHONPYCACHEPREFIX=$P
/opt/venv/bin/python -W ignore "$H/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=1500):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd,
                       env={**os.environ, **(env or {})}, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return p.returncode, p.stdout


def copy(name):
    d = '/tmp/mut/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    sh(['cp', '-a', '/repo', d])
    return d


def check(prop, repo, tier='quick'):
    rc, out = sh([VERIF + '/run.sh', prop, tier],
                 env={'SDEPY_REPO': repo, 'VERIF_SEED': '1'})
    v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
    first = out.splitlines()[0][:160] if out else ''
    return ('CAUGHT' if rc == 1 and v else 'missed' if rc == 0
            else 'BROKEN rc=%d' % rc) + ' | ' + first


def original(d, patch):
    """Are all the lines taken away lines of the original repository?"""
    bad = []
    f, n = None, 0
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            rc, out = sh(['git', 'blame', '-s', '-L', '%d,%d' % (n, n),
                          'HEAD', '--', f], cwd=d)
            if not out.lstrip('^').startswith(BASE[:6]):
                bad.append(out.strip())
            n += 1
        elif l.startswith(' '):
            n += 1
    return bad


def trial(path):
    b = runpy.run_path(path)
    name = os.path.splitext(os.path.basename(path))[0]
    d = copy(name)
    try:
        msg = [name, b['PROP']]
        stage = '/tmp/bugs/stage-' + name
        shutil.rmtree(stage, ignore_errors=True)
        os.makedirs(stage)
        with open(stage + '/demo.py', 'w') as f:
            f.write(b['DEMO'])
        with open(stage + '/demo.sh', 'w') as f:
            f.write(DEMO_SH)
        with open(stage + '/meta.json', 'w') as f:
            json.dump(dict(property=b['PROP'], needs=b['NEEDS'],
                           what_it_breaks=b['BREAKS']), f, indent=1)
        rc, out = sh(['bash', stage + '/demo.sh'], cwd=d, timeout=300)
        if rc:
            return msg + ['DEMO FAILS ON CLEAN TREE', out[-600:]]
        p = d + '/' + b['FILE']
        s = open(p).read()
        for old, new in b['EDITS']:
            if s.count(old) != 1:
                return msg + ['EDIT matches %d times: %s' % (s.count(old), old)]
            s = s.replace(old, new)
        open(p, 'w').write(s)
        rc, patch = sh(['git', 'diff'], cwd=d)
        bad = original(d, patch)
        if bad:
            return msg + ['NOT ORIGINAL LINES', bad]
        rc, out = sh(['bash', stage + '/demo.sh'], cwd=d, timeout=300)
        if not rc:
            return msg + ['DEMO DOES NOT FAIL']
        msg.append('demo: ' + (out.strip().splitlines() or [''])[-1][:100])
        with open(stage + '/patch.diff', 'w') as f:
            f.write(patch)
        t = open('/opt/vp/test.sh').read().replace('/repo', d)
        with open(d + '-test.sh', 'w') as f:
            f.write(t)
        rc, out = sh(['bash', d + '-test.sh', d + '-test.json'])
        os.remove(d + '-test.sh')
        try:
            r = json.load(open(d + '-test.json'))
            os.remove(d + '-test.json')
        except OSError:
            return msg + ['TESTS DID NOT RUN', out[-400:]]
        base = json.load(open('/opt/vp/BASELINE.json'))
        lost = [x for x in base['stable'] if x not in r['passed']]
        if lost:
            return msg + ['TESTS FAIL', lost[:4], out[-900:]]
        msg.append(check(b['PROP'], d))
        dst = VERIF + '/seeded/' + name
        shutil.rmtree(dst, ignore_errors=True)
        shutil.move(stage, dst)
        return msg + ['KEPT']
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(names, props):
    for n in names:
        src = VERIF + '/seeded/' + n
        d = copy('re-' + n)
        try:
            rc, out = sh(['git', 'apply', src + '/patch.diff'], cwd=d)
            if rc:
                print(n, 'PATCH DOES NOT APPLY', out)
                continue
            own = json.load(open(src + '/meta.json'))['property']
            for p in props or [own]:
                r = check(p, d)
                print(n, p, r, flush=True)
                f = VERIF + '/tools/seeded.json'
                s = json.load(open(f))
                c = s.setdefault(n, {}).get('caught', '').split()
                if r.startswith('CAUGHT') != (p in c):
                    c = [x for x in c if x != p] + [p] * (p not in c)
                    s[n]['caught'] = ' '.join(sorted(c))
                    json.dump(s, open(f, 'w'), indent=1, sort_keys=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'try':
        with ThreadPoolExecutor(3) as ex:
            for m in ex.map(trial, sys.argv[2:]):
                print(' || '.join(str(x) for x in m), flush=True)
    else:
        a = sys.argv[2:]
        i = a.index('--') if '--' in a else len(a)
        recheck(a[:i] or sorted(os.listdir(VERIF + '/seeded')), a[i + 1:])
