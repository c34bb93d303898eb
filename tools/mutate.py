#!/usr/bin/env python3
"""Mutation analysis: random small changes of the code, each run against the
checks of the properties the changed function is about.

usage: mutate.py OUT.jsonl NUMBER [SEED] [MODULE-OR-FUNCTION PATTERN]

Works in scratch copies under /tmp/mut; survivors are for a person to read."""
import ast
import copy
import fnmatch
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
MAP = [
    ('infrastructure', [
        ('process.__new__', 'C19'), ('process._is_comp*', 'C19'),
        ('process.__array*', 'C19 C20'), ('process.interp', 'C21'),
        ('process.__call__', 'C21'), ('process.rebase', 'C21'),
        ('process.__getitem__', 'C20'), ('process.shapeas', 'C20'),
        ('process.*copy', 'C20'), ('process.tx', 'C22 C20'),
        ('process.*', 'C22'), ('piecewise', 'C21'),
        ('_*corr*', 'C13 C10'), ('_check_source', 'C25'),
        ('_source_setup', 'C25 C13'), ('_*param*', 'C13 C06 C07'),
        ('source.*', 'C15 C13 C14'), ('wiener_source.*', 'C13'),
        ('poisson_source.*', 'C13'), ('*_rv*', 'C26'), ('rvmap*', 'C26'),
        ('cpoisson_source.*', 'C13 C25 C26'), ('_antithetics*', 'C14'),
        ('_indexed*', 'C09 C25'), ('true_source.*', 'C09 C10'),
        ('true_wiener*', 'C10 C09'), ('true_poisson*', 'C11 C09'),
        ('true_cpoisson*', 'C12 C09'),
        ('montecarlo.*', 'C16 C17 C18')]),
    ('integration', [
        ('paths_generator.*', 'C01 C02 C08'),
        ('integrator.*', 'C03 C08 C04'),
        ('SDE._*', 'C03 C06 C25 C07 C24'),
        ('SDE.source*', 'C07 C03 C25 C13'),
        ('SDE.*', 'C03 C04 C06 C07 C08 C05 C15'),
        ('SDEs.*', 'C04 C05 C06 C24 C07'),
        ('_SDE_from*', 'C24'), ('integrate*', 'C24'),
        ('*_SDE.info*', 'C08'), ('*', 'C07 C08')]),
    ('kfun', [('*', 'C23')]),
    ('analytical', [('*', 'C27 C28')]),
]


class Sites(ast.NodeVisitor):
    """All (qualified name, node, mutation) in a module."""

    def __init__(self):
        self.name, self.out, self.skip = [], [], 0

    def scoped(self, node):
        self.name.append(node.name)
        b = node.body
        if isinstance(b[0], ast.Expr) and isinstance(
                getattr(b[0], 'value', None), ast.Constant):
            b = b[1:]
        if isinstance(node, ast.FunctionDef):
            for d in node.args.defaults + node.args.kw_defaults:
                if d is not None:
                    self.visit(d)
        for n in b:
            self.visit(n)
        self.name.pop()
    visit_FunctionDef = visit_ClassDef = scoped

    def visit_Raise(self, node):
        self.add(node, 'drop')

    def visit_Assert(self, node):
        pass

    def add(self, node, how):
        self.out.append(('.'.join(self.name), node, how))

    def visit_If(self, node):
        self.add(node, 'negate')
        self.generic_visit(node)
    visit_IfExp = visit_If

    def visit_BoolOp(self, node):
        self.add(node, 'andor')
        for i in range(len(node.values)):
            self.add(node, 'lose%d' % i)
        self.generic_visit(node)

    def visit_Compare(self, node):
        self.add(node, 'compare')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if not isinstance(node.left, ast.Constant) or \
                not isinstance(node.left.value, str):
            self.add(node, 'binop')
            self.add(node, 'left')
            self.add(node, 'right')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        self.add(node, 'unary')
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.add(node, 'not')
        elif isinstance(node.value, (int, float)):
            self.add(node, 'plus')
            self.add(node, 'minus')

    def visit_Assign(self, node):
        if not isinstance(node.targets[0], ast.Name):
            self.add(node, 'drop')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, 'drop')
        self.add(node, 'augop')
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call):
            self.add(node, 'drop')
        self.generic_visit(node)

    def visit_Call(self, node):
        for i in range(len(node.keywords)):
            self.add(node, 'kw%d' % i)
        if len(node.args) > 1:
            self.add(node, 'swap')
        if len(node.args) == 1 and not node.keywords and isinstance(
                node.args[0], (ast.Name, ast.Attribute, ast.Subscript)):
            self.add(node, 'unwrap')
        self.generic_visit(node)

    def visit_Return(self, node):
        self.generic_visit(node)


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
OPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult,
       ast.MatMult: ast.Mult, ast.Mod: ast.Mult}


def mutant(node, how):
    n = copy.copy(node)
    if how == 'drop':
        return ast.Pass()
    if how == 'negate':
        n.test = ast.UnaryOp(ast.Not(), node.test)
    elif how == 'andor':
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif how.startswith('lose'):
        v = list(node.values)
        del v[int(how[4:])]
        return v[0] if len(v) == 1 else ast.BoolOp(node.op, v)
    elif how == 'compare':
        n.ops = [CMP[type(node.ops[0])]()] + node.ops[1:]
    elif how in ('binop', 'augop'):
        if type(node.op) not in OPS:
            return None
        n.op = OPS[type(node.op)]()
    elif how == 'left':
        return node.left
    elif how == 'right':
        return node.right
    elif how == 'unary':
        return node.operand
    elif how == 'not':
        n.value = not node.value
    elif how == 'plus':
        n.value = node.value + 1
    elif how == 'minus':
        n.value = node.value - 1
    elif how.startswith('kw'):
        n.keywords = list(node.keywords)
        del n.keywords[int(how[2:])]
    elif how == 'swap':
        n.args = list(node.args)
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif how == 'unwrap':
        return node.args[0]
    return n


class Put(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, node):
        return self.new if node is self.old else self.generic_visit(node)


def sites(module, pats):
    src = open('/repo/sdepy/%s.py' % module).read()
    tree = ast.parse(src)
    s = Sites()
    s.visit(tree)
    r = []
    for k, (name, node, how) in enumerate(s.out):
        if not name:
            continue
        for p, props in pats:
            if fnmatch.fnmatchcase(name, p):
                r.append((module, k, name, node.lineno, how, props))
                break
    return r


def build(module, k):
    tree = ast.parse(open('/repo/sdepy/%s.py' % module).read())
    s = Sites()
    s.visit(tree)
    name, node, how = s.out[k]
    before = ast.unparse(node)
    new = mutant(node, how)
    if new is None:
        return None
    ast.copy_location(new, node)
    t = ast.fix_missing_locations(Put(node, new).visit(tree))
    return ast.unparse(t), before[:200], ast.unparse(new)[:200]


def run(job):
    n, (module, k, name, line, how, props) = job
    b = build(module, k)
    if b is None:
        return None
    text, before, after = b
    d = '/tmp/mut/m%d' % n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/sdepy', d + '/sdepy')
    open(d + '/sdepy/%s.py' % module, 'w').write(text)
    res = 'SURVIVED'
    for p in props.split():
        try:
            q = subprocess.run(
                [PY, VERIF + '/tools/devrun.py', p, 'quick'], cwd=VERIF,
                env={**os.environ, 'SDEPY_REPO': d, 'PYTHONDONTWRITEBYTECODE': '1',
                     'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'},
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                timeout=900)
            if q.returncode:
                res = ('killed ' if q.returncode == 1 else 'BROKEN ') + p + \
                    ': ' + q.stdout.strip()[-200 if q.returncode > 1 else 0:][:250]
                break
        except subprocess.TimeoutExpired:
            res = 'TIMEOUT ' + p
            break
    shutil.rmtree(d)
    return dict(module=module, k=k, name=name, line=line, how=how,
                before=before, after=after, props=props, res=res)


def main():
    out, num = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    pat = sys.argv[4] if len(sys.argv) > 4 else '*'
    allsites = [s for m, p in MAP for s in sites(m, p)
                if fnmatch.fnmatchcase(m + '.' + s[2], pat)]
    done = set()
    if os.path.exists(out):
        done = {(r['module'], r['k']) for r in map(json.loads, open(out))}
    random.Random(seed).shuffle(allsites)
    jobs = [s for s in allsites if (s[0], s[1]) not in done][:num]
    print(len(allsites), 'sites', len(jobs), 'to run', flush=True)
    with ThreadPoolExecutor(3) as ex, open(out, 'a') as f:
        for r in ex.map(run, enumerate(jobs)):
            if r:
                f.write(json.dumps(r) + '\n')
                f.flush()


if __name__ == '__main__':
    main()
