"""Mutation campaign (development aid, not a check): python3 tools/mutate.py OUT.jsonl [--n N] [--seed S] [--file SUBSTR] [--func SUBSTR]
Works on copies under /tmp/camp; maps each function to the properties whose evidence lists it."""
import argparse
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import time

ap = argparse.ArgumentParser()
ap.add_argument('out')
ap.add_argument('--n', type=int, default=100)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--file', default='')
ap.add_argument('--func', default='')
ap.add_argument('--cores', default='4')
ap.add_argument('--work', default='/tmp/camp')
ap.add_argument('--tests', action='store_true')
A = ap.parse_args()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = A.work
R, V = W + '/repo', W + '/verif'
os.makedirs(W, exist_ok=True)
for src, dst in (('/repo', R), (HERE, V)):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('.git', 'docs', '__pycache__') if src == '/repo' else shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
fmap = {}
for f in glob.glob(HERE + '/evidence/*.json'):
    e = json.load(open(f))
    for fn in e['coverage']['functions_encoded']:
        fmap.setdefault(fn.replace('.<locals>.<genexpr>', '').replace('.<locals>.<lambda>', ''), {})[e['property']] = e['wall_s']

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '*', ast.FloorDiv: '*', ast.BitAnd: '|', ast.BitOr: '&'}
NAMES = [('lat_min', 'lat_max'), ('long_min', 'long_max'), ('get_lat', 'get_long'), ('width', 'height'), ('north', 'south'), ('east', 'west'), ('_max', '_min'), ('min(', 'max(')]


class Gen(ast.NodeVisitor):
    def __init__(self, src, rel):
        self.src, self.rel = src, rel
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()
        self.stack, self.out = [], []

    def pos(self, n, end=False):
        return self.off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def text(self, n):
        return self.b[self.pos(n):self.pos(n, True)].decode()

    def add(self, a, z, new, kind):
        if self.stack:
            self.out.append((self.rel, '.'.join(self.stack), a, z, new, kind))

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_FunctionDef(self, n):
        nested = self.stack and getattr(self, 'infn', 0)
        self.infn = getattr(self, 'infn', 0) + 1
        if nested:
            self.stack.append('<locals>')
        self.stack.append(n.name)
        for d in n.args.defaults:
            self.visit(d)
        for s in n.body:
            self.visit(s)
        self.stack.pop()
        if nested:
            self.stack.pop()
        self.infn -= 1

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = self.text(n.left), self.text(n.comparators[0])
            self.add(self.pos(n), self.pos(n, True), f'{l} {CMP[type(n.ops[0])]} {r}', 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr) and not isinstance(n.right, ast.JoinedStr):
            self.add(self.pos(n), self.pos(n, True), f'{self.text(n.left)} {OPS[type(n.op)]} {self.text(n.right)}', 'arith')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(self.pos(n), self.pos(n, True), '(' + op.join('(' + self.text(v) + ')' for v in n.values) + ')', 'bool')
        for v in n.values:
            self.add(self.pos(n), self.pos(n, True), '(' + self.text(v) + ')', 'drop')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            self.add(self.pos(n), self.pos(n, True), '(' + self.text(n.operand) + ')', 'unary')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(self.pos(n), self.pos(n, True), str(not n.value), 'const')
        elif isinstance(n.value, (int, float)):
            self.add(self.pos(n), self.pos(n, True), f'({n.value} + 1)', 'const')
        elif isinstance(n.value, str) and 0 < len(n.value) < 12 and self.text(n)[0] in '\'"':
            pass

    def visit_If(self, n):
        self.add(self.pos(n.test), self.pos(n.test, True), f'not ({self.text(n.test)})', 'if')
        self.generic_visit(n)

    def stmt(self, n):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and 'logging.' not in self.text(n)[:10]:
            self.add(self.pos(n), self.pos(n, True), 'pass', 'del')

    def visit_Assign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if 'logging.' in self.text(n)[:10]:
            return
        self.stmt(n)
        self.generic_visit(n)

    def visit_Call(self, n):
        t = self.text(n.func)
        for a, b in NAMES:
            for x, y in ((a, b), (b, a)):
                x, y = x.rstrip('('), y.rstrip('(')
                if x in t.split('.')[-1] and y not in t.split('.')[-1]:
                    head = t[:len(t) - len(t.split('.')[-1])]
                    self.add(self.pos(n.func), self.pos(n.func, True), head + t.split('.')[-1].replace(x, y), 'name')
        if len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
            self.add(self.pos(n), self.pos(n, True), f'{t}({self.text(n.args[1])}, {self.text(n.args[0])})', 'swap')
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(self.pos(n), self.pos(n, True), 'pass', 'del')

    def visit_Continue(self, n):
        self.add(self.pos(n), self.pos(n, True), 'pass', 'del')

    def visit_Raise(self, n):
        self.add(self.pos(n), self.pos(n, True), 'pass', 'del')

    def visit_Assert(self, n):
        self.add(self.pos(n), self.pos(n, True), 'pass', 'del')

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        self.generic_visit(n)


muts = []
for f in sorted(glob.glob(R + '/meshiphi/**/*.py', recursive=True)):
    rel = os.path.relpath(f, R)
    src = open(f).read()
    g = Gen(src, rel)
    g.visit(ast.parse(src))
    muts += g.out
muts = [m for m in muts if A.file in m[0] and A.func in m[1]]
cov = [m for m in muts if f'{m[0]}:{m[1]}' in fmap]
unc = sorted({f'{m[0]}:{m[1]}' for m in muts} - {f'{m[0]}:{m[1]}' for m in cov})
print(len(muts), 'mutants', len(cov), 'in encoded functions;', len(unc), 'functions not encoded')
random.Random(A.seed).shuffle(cov)
done = 0
with open(A.out, 'a') as out:
    for rel, fn, a, z, new, kind in cov[:A.n]:
        p = R + '/' + rel
        b = open('/repo/' + rel, 'rb').read()
        old = b[a:z].decode()
        nb = b[:a] + new.encode() + b[z:]
        try:
            ast.parse(nb.decode())
        except SyntaxError:
            continue
        open(p, 'wb').write(nb)
        props = sorted(fmap[f'{rel}:{fn}'].items(), key=lambda x: x[1])
        hit, notes = None, []
        t0 = time.time()
        for pid, _ in props:
            try:
                r = subprocess.run([sys.executable, V + '/check.py', pid, 'quick'], cwd=V, capture_output=True, text=True, timeout=600,
                                   env=dict(os.environ, VERIF_REPO=R, VERIF_CORES=A.cores))
            except subprocess.TimeoutExpired:
                notes.append(f'{pid}: timeout')
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                hit = pid
                break
            if r.returncode != 0:
                hit = pid + ' (crash)'
                notes.append(f'{pid}: rc {r.returncode} {r.stderr[-200:]}')
                break
            inc = [l for l in r.stdout.splitlines() if l.startswith('INCONC')]
            if inc:
                notes.append(f'{pid}: {len(inc)} inconclusive, {inc[0][:150]}')
        rec = dict(file=rel, fn=fn, line=b[:a].count(b'\n') + 1, old=old, new=new, kind=kind, hit=hit, notes=notes, t=round(time.time() - t0, 1))
        if not hit and A.tests:
            pass
        out.write(json.dumps(rec) + '\n')
        out.flush()
        open(p, 'wb').write(b)
