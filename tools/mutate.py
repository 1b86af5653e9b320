#!/usr/bin/env python3
"""Mutation survey: mutate.py FILE(relative to /repo) ADAPTER BEHAVIOURS.json [N] [lines a-b] [params-json]
Mutates operators, comparisons, constants, keywords and statements of FILE one at a time in scratch copies, replays
N behaviours into each and lists the mutants that no behaviour distinguishes. A development aid."""
import ast, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import engine
fn, adapter, bf = sys.argv[1:4]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 300
rng = tuple(int(x) for x in sys.argv[5].split('-')) if len(sys.argv) > 5 and sys.argv[5] != '-' else (0, 10**9)
params = json.loads(sys.argv[6]) if len(sys.argv) > 6 else {}
src = open(os.path.join(engine.REPO, fn)).read()
lines = src.split('\n')
muts = []


def seg(node, new):
    if node.lineno != node.end_lineno or not rng[0] <= node.lineno <= rng[1]:
        return
    b = lines[node.lineno - 1].encode()
    l = (b[:node.col_offset] + new.encode() + b[node.end_col_offset:]).decode()
    muts.append((node.lineno, lines[node.lineno - 1].strip(), l))


class V(ast.NodeVisitor):
    def visit_FunctionDef(self, node):
        if node.name in ('__str__', '__repr__', 'plot', '_repr_html_'):
            return
        self.generic_visit(node)

    def visit_Compare(self, node):
        alt = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '=='}
        inv = {'Lt': '>', 'LtE': '>', 'Gt': '<', 'GtE': '<', 'Is': 'is not', 'IsNot': 'is'}
        if len(node.ops) == 1:
            o = type(node.ops[0]).__name__
            for d in (alt, inv):
                if o in d:
                    seg(node, '%s %s %s' % (ast.unparse(node.left), d[o], ast.unparse(node.comparators[0])))
        self.generic_visit(node)

    def visit_BinOp(self, node):
        alt = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*', 'Pow': '*', 'FloorDiv': '*'}
        o = type(node.op).__name__
        if o in alt and not isinstance(node.left, ast.Constant):
            seg(node, '(%s) %s (%s)' % (ast.unparse(node.left), alt[o], ast.unparse(node.right)))
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)):
            seg(node, '(%s)' % ast.unparse(node.operand))
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            seg(node, str(not node.value))
        elif isinstance(node.value, (int, float)):
            seg(node, repr(node.value + 1))
            if node.value == 1: seg(node, '0')

    def visit_BoolOp(self, node):
        j = ' or ' if isinstance(node.op, ast.And) else ' and '
        seg(node, j.join('(%s)' % ast.unparse(v) for v in node.values))
        self.generic_visit(node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('copy', 'deepcopy') and len(node.args) <= 1:
            seg(node, ast.unparse(node.args[0] if node.args else node.func.value))
        if isinstance(node.func, ast.Name) and node.func.id in ('min', 'max', 'abs') and len(node.args) <= 2:
            seg(node, {'min': 'max', 'max': 'min', 'abs': ''}[node.func.id] + '(%s)' % ', '.join(ast.unparse(a) for a in node.args))
        self.generic_visit(node)

    def stmt(self, node):
        if node.lineno == node.end_lineno:
            seg(node, 'pass')
        self.generic_visit(node)
    visit_Assign = visit_AugAssign = visit_Continue = visit_Break = stmt
    def visit_Expr(self, node):
        if not isinstance(node.value, ast.Constant):
            self.stmt(node)
    def visit_Raise(self, node):
        self.stmt(node)
    def visit_Assert(self, node):
        self.stmt(node)
    def visit_If(self, node):
        seg(node.test, 'True'); seg(node.test, 'False')
        self.generic_visit(node)
    def visit_JoinedStr(self, node):
        pass


V().visit(ast.parse(src))
muts = list(dict.fromkeys(muts))
items = json.load(open(bf))[:n]
root = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
base = engine.build_repo(root)
res0 = engine.replay(adapter, items, base, root, params=params)
b0 = {(i, f['op'], f['clause']) for i, r in enumerate(res0) if r for f in r['fails']}


def one(m):
    ln, old, new = m
    d = tempfile.mkdtemp(dir=root)
    try:
        t = os.path.join(d, 'tree')
        shutil.copytree(base, t, symlinks=True)
        ls = list(lines); ls[ln - 1] = new
        try:
            compile('\n'.join(ls), fn, 'exec')
        except SyntaxError:
            return None
        open(os.path.join(t, fn), 'w').write('\n'.join(ls))
        try:
            rs = engine.replay(adapter, items, t, d, shards=1, timeout=240, params=params)
        except engine.MachineryError:
            return m, 'killed (import)'
        for i, r in enumerate(rs):
            if r is None:
                return m, 'killed (hang)'
            for f in r['fails']:
                if (i, f['op'], f['clause']) not in b0:
                    return m, 'killed %s/%s' % (f['op'], f['clause'])
        return m, 'SURVIVED'
    finally:
        shutil.rmtree(d, ignore_errors=True)


try:
    with ThreadPoolExecutor(8) as ex:
        out = [x for x in ex.map(one, muts) if x]
    k = sum(1 for _, v in out if v != 'SURVIVED')
    for (ln, old, new), v in out:
        if v == 'SURVIVED':
            print('%4d  %s\n   -> %s' % (ln, old, new.strip()))
    print('%d of %d mutants distinguished' % (k, len(out)))
finally:
    shutil.rmtree(root, ignore_errors=True)
