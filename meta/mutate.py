#!/usr/bin/env python3
"""Mutation trial: which small changes of the package does no check notice?

    python3 meta/mutate.py <module> [function-substring] [--sample N] [--jobs N]
        [--max CPUSECONDS] [--cores N] [--timeout SECONDS] [--again OUTPUT]

Works in scratch copies of the package under a temporary directory; /repo is
not touched.  Prints every mutant that survives the checks which execute the
changed function.  A survivor is either an equivalent change, outside every
property, or a gap in a check; where a check is listed as "timeout", nothing is
known.  --again takes the output of an earlier run and tries its survivors
again, with more time say."""
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUTATE_REPO', '/repo')
SKIP = {'__str__', '__repr__', '_strList', '_strListUncombined', '_draw', 'printSequenceEventList'}


def coverage():
    cov, cost = {}, {}
    for f in glob.glob(os.path.join(HERE, 'evidence', '???.json')):
        with open(f) as h:
            d = json.load(h)
        cost[d['property']] = sum(c.get('wall_s') or 0 for c in d['coverage']['per_case'])
        for x in d['coverage']['functions_encoded']:
            cov.setdefault(x.split('@')[0], []).append(d['property'])
    return cov, cost


class Finder(ast.NodeVisitor):
    def __init__(self, mod, src):
        self.stack = [mod]
        self.src = src
        self.out = []        # (function, line, old segment (start, end), new text, what)
        self.starts = [0]
        for line in src.encode().split(b'\n'):
            self.starts.append(self.starts[-1] + len(line) + 1)
        self.infunc = 0

    def pos(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset)

    def seg(self, n):
        a, b = self.pos(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, new, what):
        if self.infunc:
            self.out.append(('.'.join(self.stack), n.lineno, self.pos(n), new, what))

    def scope(self, n, func):
        if n.name in SKIP:
            return
        self.stack.append(n.name)
        self.infunc += func
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        if func:
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                self.visit(d)
        for s in body:
            self.visit(s)
        self.infunc -= func
        self.stack.pop()

    def visit_FunctionDef(self, n):
        self.scope(n, 1)

    def visit_ClassDef(self, n):
        self.scope(n, 0)

    def visit_Compare(self, n):
        swap = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
                ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
        if len(n.ops) == 1:
            t = swap.get(type(n.ops[0]))
            self.add(n, f'({self.seg(n.left)} {t} {self.seg(n.comparators[0])})', 'compare')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + op.join('(' + self.seg(v) + ')' for v in n.values) + ')', 'boolop')
        for v in n.values:
            self.add(n, '(' + self.seg(v) + ')', 'onlyone')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        swap = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '//', ast.LShift: '>>',
                ast.RShift: '<<', ast.BitOr: '&', ast.BitAnd: '|', ast.BitXor: '|', ast.Div: '*'}
        t = swap.get(type(n.op))
        if t and not isinstance(n.left, ast.JoinedStr) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, f'(({self.seg(n.left)}) {t} ({self.seg(n.right)}))', 'binop')
            if isinstance(n.op, (ast.BitAnd, ast.Mod)):
                self.add(n, f'({self.seg(n.left)})', 'nomask')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), 'bool')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'plus1')
            if v:
                self.add(n, str(v - 1), 'minus1')
        elif isinstance(v, str) and v[:1] == '<' and len(v) < 20:
            self.add(n, repr('>' + v[1:]), 'endian')
        elif isinstance(v, bytes) and v:
            self.add(n, repr(bytes([v[0] ^ 1]) + v[1:]), 'bytes')

    def visit_JoinedStr(self, n):
        pass

    def visit_Raise(self, n):
        self.add(n, 'pass', 'noraise')

    def visit_Assert(self, n):
        self.add(n, 'pass', 'noassert')

    def test(self, n):
        self.add(n.test, 'True', 'true')
        self.add(n.test, 'False', 'false')

    def visit_If(self, n):
        self.test(n)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.test(n)
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.add(n, 'pass', 'nocall')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'noaug')
        swap = {ast.Add: '-=', ast.Sub: '+=', ast.BitOr: '=', ast.LShift: '>>=', ast.RShift: '<<='}
        if type(n.op) in swap:
            self.add(n, f'{self.seg(n.target)} {swap[type(n.op)]} {self.seg(n.value)}', 'augop')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, 'pass', 'noassign')
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, 'pass', 'nocontinue')

    def visit_Break(self, n):
        self.add(n, 'pass', 'nobreak')

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            self.add(n, 'return None', 'noreturn')
        self.generic_visit(n)

    def visit_Slice(self, n):
        if n.lower is not None and n.upper is not None:
            self.add(n, f'{self.seg(n.lower)}:', 'noupper')
        self.generic_visit(n)


def mutants(path, mod):
    with open(path) as f:
        src = f.read()
    fd = Finder(mod, src)
    fd.visit(ast.parse(src))
    raw = src.encode()
    seen = set()
    for func, line, (a, b), new, what in fd.out:
        text = raw[:a] + new.encode() + raw[b:]
        if text in seen or text == raw:
            continue
        seen.add(text)
        try:
            compile(text, path, 'exec')
        except SyntaxError:
            continue
        yield func, line, what, raw[a:b].decode(), new, text


def trial(job):
    i, rel, m, props, tmp, cores, limit = job
    func, line, what, old, new, text = m
    root = os.path.join(tmp, f'm{i}')
    shutil.copytree(os.path.join(REPO, 'ndspy'), os.path.join(root, 'ndspy'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    with open(os.path.join(root, rel), 'wb') as f:
        f.write(text)
    env = dict(os.environ, NDSPY_REPO=root, VERIF_JOBS=cores, VERIF_EVIDENCE=os.path.join(root, 'ev'), VERIF_SEED='1')
    res = []
    killed = None
    for p in props:
        try:
            r = subprocess.run(['python3-vt', 'vrun.py', p, 'quick'], cwd=HERE, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            res.append(f'{p}:timeout')
            continue
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            killed = p
            break
        inc = r.stdout.count('INCOMPLETE:')
        res.append(f'{p}:{r.returncode}' + (f' incomplete {inc}' if inc else '') +
                   (' ' + [l for l in r.stdout.splitlines() if 'INCOMPLETE' in l][0][:140] if inc else ''))
    shutil.rmtree(root)
    return killed, m, res


def main(argv):
    opts = {'--sample': '0', '--jobs': '8', '--max': '60', '--cores': '1', '--timeout': '120', '--again': ''}
    for k in opts:
        if k in argv:
            j = argv.index(k)
            opts[k] = argv[j + 1]
            del argv[j:j + 2]
    mod = argv[0]
    sub = argv[1] if len(argv) > 1 else ''
    rel = mod.replace('.', '/') + '.py'
    if not os.path.exists(os.path.join(REPO, rel)):
        rel = mod.replace('.', '/') + '/__init__.py'
    cov, cost = coverage()
    ms = [m for m in mutants(os.path.join(REPO, rel), mod) if sub in m[0]]
    if opts['--again']:
        # only those that survived an earlier run, given its output
        with open(opts['--again']) as f:
            old = re.findall(r'^SURVIVED \S+:(\d+) \S+ \[(\w+)\]\n    - (.*?)\n    \+ (.*?)\n    (?=$|\w\d\d:)', f.read(), re.M | re.S)
        ms = [m for m in ms if (str(m[1]), m[2], m[3][:200], m[4][:200]) in old]
    n = int(opts['--sample'])
    if n and n < len(ms):
        random.seed(1)
        ms = sorted(random.sample(ms, n), key=lambda m: m[1])
    tmp = tempfile.mkdtemp(prefix='mutate')
    jobs = []
    for i, m in enumerate(ms):
        props = sorted(cov.get(m[0], []), key=lambda p: (p[0] == 'U' and p != 'U04', cost[p]))
        keep, total = [], 0
        for p in props:
            if keep and total + cost[p] > float(opts['--max']):
                break
            keep.append(p)
            total += cost[p]
        jobs.append((i, rel, m, keep, tmp, opts['--cores'], int(opts['--timeout'])))
    killed = survived = 0
    try:
        with ThreadPoolExecutor(int(opts['--jobs'])) as ex:
            for k, m, res in ex.map(trial, jobs):
                if k:
                    killed += 1
                    continue
                survived += 1
                func, line, what, old, new, _ = m
                print(f'SURVIVED {rel}:{line} {func} [{what}]\n    - {old[:200]}\n    + {new[:200]}\n    {"; ".join(res)}', flush=True)
    finally:
        shutil.rmtree(tmp)
    print(f'{mod}: {killed} noticed, {survived} survived')


if __name__ == '__main__':
    main(sys.argv[1:])
