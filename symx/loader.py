"""
Loads Python sources from the current tree for symbolic execution.

Each module is parsed, lightly rewritten (see Rewriter) and executed with
the replaced builtins of shim.py.  Nothing is cached between runs: the
encoding always comes from the source files as they are now.
"""

import ast
import builtins
import copy
import os
import sys
import types

from . import shim
from . import terms as tm
from . import values as V
from .terms import T
from .values import SInt, SBool, SBytes, SByteArray, SStr

REPO = os.environ.get('NDSPY_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rewriter(ast.NodeTransformer):
    """
    - bytes literals become SBytes objects;
    - subscript loads, `in` tests, dict/set displays, f-strings and
      .join() calls go through helpers which accept symbolic operands;
    - `if` statements and conditional expressions whose branches are
      plain integer expressions are merged into if-then-else terms when
      the condition is symbolic;
    - loops and function entries are counted.
    Error messages are not part of any property and are blanked.
    """

    def __init__(self, modname):
        self.modname = modname
        self.consts = []
        self.stack = []
        self.infunc = 0
        self.n = 0

    # -- helpers

    def call(self, name, args):
        return ast.Call(ast.Attribute(ast.Name('_sx_', ast.Load()), name, ast.Load()),
                        args, [])

    def lam(self, body):
        return ast.Lambda(ast.arguments([], [], None, [], [], None, []), body)

    # -- constants

    def visit_Constant(self, node):
        if builtins.isinstance(node.value, bytes):
            name = f'_sx_b{len(self.consts)}'
            self.consts.append((name, node.value))
            return ast.Name(name, ast.Load())
        return node

    def visit_MatchValue(self, node):
        # patterns take literals and attributes only
        if isinstance(node.value, ast.Constant) and isinstance(node.value.value, bytes):
            name = self.visit(node.value).id
            node.value = ast.Attribute(ast.Name('_sx_k', ast.Load()), name, ast.Load())
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(ast.Tuple([v], ast.Load()))
            else:
                spec = v.format_spec
                if spec is None:
                    s = ast.Constant('')
                else:
                    s = self.visit(spec)
                args.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), s],
                                      ast.Load()))
        return self.call('fstr', args)

    # -- expressions

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        sl = node.slice
        if isinstance(sl, ast.Slice):
            return node
        if isinstance(sl, ast.Tuple) or (isinstance(sl, ast.Constant)):
            return node
        return self.call('getitem', [node.value, sl])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = 'contains' if isinstance(node.ops[0], ast.In) else 'notcontains'
            return self.call(name, [node.comparators[0], node.left])
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.call('lnot', [node.operand])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return self.call('mkdict', [node])
        return self.call('mkdictp', [ast.List([ast.Tuple([k, v], ast.Load())
                                               for k, v in zip(node.keys, node.values)],
                                              ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self.call('mkdictp', [ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators)])

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call('mkset', [ast.List(node.elts, ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.call('mkset', [ast.ListComp(node.elt, node.generators)])

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and len(node.args) == 1 \
                and not node.keywords and not isinstance(node.args[0], ast.Starred):
            return self.call('join', [f.value, node.args[0]])
        if isinstance(f, ast.Attribute) and f.attr in ('encode', 'to_bytes'):
            return self.call('asbytes', [node])
        return node

    def simple(self, e):
        """Expression free of side effects, calls and lookups."""
        if isinstance(e, ast.Name):
            return True
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, bool))
        if isinstance(e, ast.Attribute):
            return self.simple(e.value)
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, (ast.USub, ast.Invert)) and self.simple(e.operand)
        if isinstance(e, ast.BinOp):
            if not (self.simple(e.left) and self.simple(e.right)):
                return False
            if isinstance(e.op, (ast.Add, ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor, ast.Mult)):
                return True
            if isinstance(e.op, (ast.LShift, ast.RShift, ast.FloorDiv, ast.Mod)):
                return isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) \
                    and 0 < e.right.value < 65
            return False
        return False

    def lookup(self, e):
        """Like simple(), but may also look up items and build tuples."""
        if isinstance(e, ast.Tuple):
            return all(self.lookup(x) for x in e.elts)
        if isinstance(e, ast.Subscript):
            return self.simple(e.value) and self.simple(e.slice)
        return self.simple(e)

    def condition(self, e):
        """Expression free of side effects whose truth may be asked for."""
        if isinstance(e, ast.Compare):
            return all(isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is, ast.IsNot))
                       for o in e.ops) and all(self.simple(x) for x in [e.left] + e.comparators)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.condition(e.operand)
        if isinstance(e, ast.BoolOp):
            return all(self.condition(x) for x in e.values)
        return self.simple(e)

    def test(self, e):
        """Test of a merged statement: and/or need not branch."""
        if self.infunc and isinstance(e, ast.BoolOp) and all(self.condition(x) for x in e.values[1:]):
            name = 'land' if isinstance(e.op, ast.And) else 'lor'
            return self.call(name, [self.lam(self.test(x)) for x in e.values])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.call('lnot', [self.test(e.operand)])
        return self.visit(e)

    def returns(self, body):
        """`if c: return a` before `return b` becomes `return a if c else b`."""
        def value(b):
            return len(b) == 1 and isinstance(b[0], ast.Return) and b[0].value is not None \
                and (self.lookup(b[0].value) or isinstance(b[0].value, ast.IfExp) and getattr(b[0], 'made', 0))
        body = list(body)
        for s in body:
            if isinstance(s, ast.If):
                s.body, s.orelse = self.returns(s.body), self.returns(s.orelse)
        while body and isinstance(body[-1], ast.If) and value(body[-1].body) and value(body[-1].orelse):
            s = body.pop()
            body.append(ast.copy_location(ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)), s))
            body[-1].made = 1
        while len(body) > 1 and isinstance(body[-2], ast.If) and value(body[-2].body) and not body[-2].orelse \
                and value(body[-1:]):
            b = body.pop().value
            s = body.pop()
            body.append(ast.copy_location(ast.Return(ast.IfExp(s.test, s.body[0].value, b)), s))
            body[-1].made = 1
        return body

    def visit_IfExp(self, node):
        ok = self.infunc and all(self.lookup(x) or isinstance(x, ast.IfExp) for x in (node.body, node.orelse))
        node.test = self.test(node.test) if ok else self.visit(node.test)
        node.body, node.orelse = self.visit(node.body), self.visit(node.orelse)
        if not ok:
            return node
        return self.call('ifexp', [node.test, self.lam(node.body), self.lam(node.orelse)])

    # -- statements

    def visit_Raise(self, node):
        if node.exc is not None:
            node.exc = Blank().visit(node.exc)
        self.generic_visit(node)
        return node

    def visit_Assert(self, node):
        node.msg = None
        self.generic_visit(node)
        return node

    def _assigns(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 \
                    and isinstance(s.targets[0], ast.Name) and self.simple(s.value):
                out.append((s.targets[0].id, s.value))
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                v = ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)
                if not self.simple(v):
                    return None
                out.append((s.target.id, v))
            elif isinstance(s, ast.Pass):
                continue
            else:
                return None
        # one assignment per name, and no later use of an earlier result
        names = [n for n, _ in out]
        if len(set(names)) != len(names):
            return None
        for i, (n, _) in enumerate(out):
            for _, v in out[i + 1:]:
                if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(v)):
                    return None
        return out

    def _append(self, body):
        """The name and argument if the body is just `name.append(arg)`."""
        if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call):
            c = body[0].value
            if isinstance(c.func, ast.Attribute) and c.func.attr == 'append' \
                    and isinstance(c.func.value, ast.Name) and len(c.args) == 1 \
                    and not c.keywords and self.lookup(c.args[0]):
                return c.func.value.id, c.args[0]
        return None

    def _ifappend(self, node):
        a, b = self._append(node.body), self._append(node.orelse)
        if a is None or b is None or a[0] != b[0]:
            return None
        va, vb = copy.deepcopy(a[1]), copy.deepcopy(b[1])
        self.ifparts(node, True)
        va, vb = self.visit(va), self.visit(vb)
        tmp, tm_ = f'_sx_c{self.n}', f'_sx_m{self.n}'
        self.n += 1
        test = ast.Assign([ast.Name(tmp, ast.Store())], node.test)
        m = ast.Assign([ast.Name(tm_, ast.Store())],
                       self.call('merge', [ast.Name(tmp, ast.Load()),
                                           self.lam(ast.Tuple([va], ast.Load())),
                                           self.lam(ast.Tuple([vb], ast.Load()))]))
        add = ast.Expr(ast.Call(
            ast.Attribute(ast.Name(a[0], ast.Load()), 'append', ast.Load()),
            [ast.Subscript(ast.Name(tm_, ast.Load()), ast.Constant(0), ast.Load())], []))
        plain = ast.If(ast.Name(tmp, ast.Load()), node.body, node.orelse)
        cond = ast.Compare(ast.Name(tm_, ast.Load()), [ast.IsNot()], [ast.Constant(None)])
        return [test, m, ast.If(cond, [add], [plain])]

    def ifparts(self, node, merged):
        node.test = self.test(node.test) if merged else self.visit(node.test)
        for n in ('body', 'orelse'):
            out = []
            for x in getattr(node, n):
                r = self.visit(x)
                out.extend(r if isinstance(r, list) else [r])
            setattr(node, n, out)

    def visit_If(self, node):
        if self.infunc:
            r = self._ifappend(node)
            if r is not None:
                return r
        a = self._assigns(node.body) if self.infunc else None
        b = self._assigns(node.orelse) if a is not None else None
        self.ifparts(node, a and b is not None)
        if a is None or b is None or not a:
            return node
        da, db = dict(a), dict(b)
        names = sorted(set(da) | set(db))
        tmp = f'_sx_c{self.n}'
        tm_ = f'_sx_m{self.n}'
        self.n += 1

        def tup(d):
            return ast.Tuple([d.get(n, ast.Name(n, ast.Load())) for n in names], ast.Load())
        test = ast.Assign([ast.Name(tmp, ast.Store())], node.test)
        m = ast.Assign([ast.Name(tm_, ast.Store())],
                       self.call('merge', [ast.Name(tmp, ast.Load()),
                                           self.lam(copy.deepcopy(tup(da))),
                                           self.lam(copy.deepcopy(tup(db)))]))
        unpack = ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
                            ast.Name(tm_, ast.Load()))
        plain = ast.If(ast.Name(tmp, ast.Load()), node.body, node.orelse)
        cond = ast.Compare(ast.Name(tm_, ast.Load()), [ast.IsNot()], [ast.Constant(None)])
        return [test, m, ast.If(cond, [unpack], [plain])]

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(self.call('tick', [])))
        return node

    visit_For = _loop

    def visit_While(self, node):
        pad = self.padding(node)
        node = self._loop(node)
        if pad is None:
            return node
        return [self.visit(pad), *(node if isinstance(node, list) else [node])]

    @staticmethod
    def padding(node):
        """For `while len(x) % m: x.append(c)` and `while n % m: n += 1`, a
        statement that takes all the steps at once if there may be many.
        The loop itself stays behind it."""
        def simple(x):
            while isinstance(x, ast.Attribute):
                x = x.value
            return isinstance(x, (ast.Name, ast.Constant))
        t = node.test
        if node.orelse or len(node.body) != 1 or not (
                isinstance(t, ast.BinOp) and isinstance(t.op, ast.Mod) and simple(t.right)):
            return None
        b, e = node.body[0], t.left
        m = copy.deepcopy(t.right)
        if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) \
                and isinstance(b.target, ast.Name) and isinstance(e, ast.Name) \
                and b.target.id == e.id and isinstance(b.value, ast.Constant) and b.value.value == 1 \
                and type(b.value.value) is int:
            call = ast.parse(f'{e.id} = _sx_.padint({e.id}, 0)').body[0]
            call.value.args[1] = m
            return call
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and simple(e.right):
            l = e.left
        else:
            l = e
        if not (isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'len'
                and len(l.args) == 1 and isinstance(l.args[0], ast.Name) and not l.keywords):
            return None
        x = l.args[0].id
        if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call)
                and isinstance(b.value.func, ast.Attribute) and isinstance(b.value.func.value, ast.Name)
                and b.value.func.value.id == x and b.value.func.attr in ('append', 'extend')
                and len(b.value.args) == 1 and not b.value.keywords and simple(b.value.args[0])):
            return None
        call = ast.parse(f'_sx_.padbytes({x}, 0, 0, 0, {b.value.func.attr == "append"})').body[0]
        call.value.args[1:4] = [copy.deepcopy(e), m, copy.deepcopy(b.value.args[0])]
        return call

    def _func(self, node):
        self.stack.append(node.name)
        # decorators and defaults belong to the enclosing scope
        inf = self.infunc
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.infunc = inf + 1
        gl = any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(node))
        if gl:
            self.infunc = 0
        body = []
        for s in self.returns(node.body) if self.infunc else node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.infunc = inf
        q = '.'.join(self.stack)
        doc = 1 if body and isinstance(body[0], ast.Expr) and \
            isinstance(body[0].value, ast.Constant) else 0
        body.insert(doc, ast.Expr(self.call('enter', [ast.Constant(f'{self.modname}.{q}')])))
        node.body = body
        node.returns = None
        for a in ast.walk(node.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        self.stack.pop()
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        inf, self.infunc = self.infunc, 0
        self.generic_visit(node)
        self.infunc = inf
        self.stack.pop()
        return node


class Blank(ast.NodeTransformer):
    def visit_JoinedStr(self, node):
        return ast.Constant('(message)')


# a padding loop with this many steps is taken in one
MANY = 64


class Helpers:
    """The `_sx_` object visible to rewritten code."""

    def __init__(self):
        self.entered = set()
        self.ctx = None
        self.loadticks = 0

    def enter(self, name):
        self.entered.add(name)

    def tick(self):
        if V.CUR is not None:
            V.CUR.tick()
            return
        # code run while a module is imported
        self.loadticks += 1
        if self.loadticks > 20000000:
            raise RuntimeError('import of the package does not end')

    @staticmethod
    def getitem(x, i):
        if builtins.isinstance(i, (SInt, SBool)) and type(x) in (list, tuple):
            if builtins.isinstance(i, SBool):
                i = i.asint()
            if builtins.isinstance(i, SInt):
                return listindex(x, i)
        return x[i]

    @staticmethod
    def contains(c, x):
        return contains(c, x)

    @staticmethod
    def notcontains(c, x):
        return V.lnot(contains(c, x))

    @staticmethod
    def lnot(x):
        return V.lnot(x) if builtins.isinstance(x, (SBool, SInt)) else not x

    @staticmethod
    def land(*fs):
        return connect(fs, False)

    @staticmethod
    def lor(*fs):
        return connect(fs, True)

    @staticmethod
    def mkdict(d):
        return shim.SDict(d)

    @staticmethod
    def mkdictp(pairs):
        d = shim.SDict()
        for k, v in pairs:
            d[k] = v
        return d

    @staticmethod
    def mkset(it):
        return shim.mkset(it)

    @staticmethod
    def join(sep, items):
        if builtins.isinstance(sep, str):
            items = list(items)
            if any(builtins.isinstance(x, SStr) for x in items):
                return V.strjoin(sep, items)
            return sep.join(items)
        if builtins.isinstance(sep, (bytes, bytearray)):
            return V.as_sbytes(sep).join(items)
        return sep.join(items)

    @staticmethod
    def asbytes(x):
        return V.as_sbytes(x) if type(x) is bytes else x

    @staticmethod
    def fstr(*parts):
        out = []
        sym = False
        for p in parts:
            if len(p) == 1:
                out.append(p[0])
                continue
            v, conv, spec = p
            if conv == 114:
                v = shim.s_repr(v)
            elif conv == 115 or conv == 97:
                v = str(v) if not builtins.isinstance(v, SStr) else v
            if builtins.isinstance(v, SStr) and not spec:
                out.append(v)
                sym = True
            else:
                out.append(format(v, spec if builtins.isinstance(spec, str) else str(spec)))
        if sym:
            return V.strjoin('', out)
        return ''.join(out)

    @staticmethod
    def padint(n, m):
        if type(n) is SInt and type(m) is int and m >= MANY and n.lo >= 0 and n.hi - n.lo >= MANY:
            return n + -n % m
        return n

    @staticmethod
    def padbytes(x, n, m, c, one):
        if type(n) is SInt and type(m) is int and m >= MANY and n.lo >= 0 and n.hi - n.lo >= MANY \
                and builtins.isinstance(x, V.SByteArray):
            if one and type(c) is int and 0 <= c < 256:
                c = bytes([c])
            elif one or type(c) not in (bytes, SBytes) or len(c) != 1:
                return
            x.extend(V.as_sbytes(c) * (-n % m))

    @staticmethod
    def ifexp(c, a, b):
        if builtins.isinstance(c, (SBool, SInt)):
            try:
                x, y = a(), b()
            except Exception:
                x = y = None
            if alike(x, y):
                return mergev(V.boolterm(c), x, y)
        return a() if c else b()

    @staticmethod
    def merge(c, a, b):
        if not builtins.isinstance(c, (SBool, SInt)):
            return None
        try:
            xs, ys = a(), b()
        except Exception:
            return None
        if not all(alike(x, y) for x, y in zip(xs, ys)):
            return None
        t = V.boolterm(c)
        return tuple(mergev(t, x, y) for x, y in zip(xs, ys))


def connect(fs, end):
    """Truth of `a and b ...` (end False) or `a or b ...` (end True)."""
    ts = []

    def sofar():
        return V.mkbool(tm.or_b(ts) if end else tm.and_b(ts))
    for f in fs:
        try:
            v = f()
        except Exception:
            if not ts:
                raise
            # may not be asked for at all
            if bool(sofar()) == end:
                return end
            ts = []
            v = f()
        if builtins.isinstance(v, (SBool, SInt)):
            ts.append(V.boolterm(v))
        elif bool(v) == end:
            return end
    return sofar() if ts else not end


def mergeable(x):
    return builtins.isinstance(x, (SInt, SBool)) or type(x) in (int, bool)


def alike(x, y):
    if type(x) is tuple and type(y) is tuple:
        return len(x) == len(y) and all(alike(a, b) for a, b in zip(x, y))
    return mergeable(x) and mergeable(y)


def mergev(t, x, y):
    if type(x) is tuple:
        return tuple(mergev(t, a, b) for a, b in zip(x, y))
    return V.ite(t, x, y)


def pickfrom(x, i, lo, hi):
    """Item i of a list whose items can be merged: a tree over the bits."""
    if lo == hi:
        return x[lo]
    mid = (lo + hi + 1) // 2
    b = (hi - lo).bit_length() - 1
    mid = ((lo >> b) + 1) << b if lo >> b != hi >> b else mid
    l, r = pickfrom(x, i, lo, mid - 1), pickfrom(x, i, mid, hi)
    return mergev(V.ltterm(i, mid), l, r)


def listindex(x, i):
    n = len(x)
    if not V.inrange(i, -n, n - 1):
        raise IndexError('index out of range')
    if i.lo < 0 and V.branch(V.ltterm(i, 0)):
        i = i + n
        if not builtins.isinstance(i, SInt):
            return x[i]
    lo, hi = max(0, i.lo), min(n - 1, i.hi)
    if lo == hi:
        return x[lo]
    if i.lo >= 0 and all(type(e) is int and e >= 0 for e in x[lo:hi + 1]):
        m = max(x[lo:hi + 1])
        return V.from_term(tm.tab(tuple(x[:hi + 1]) if lo == 0 else
                                  (0,) * lo + tuple(x[lo:hi + 1]),
                                  max(1, m.bit_length()), V.term(i)))
    if i.lo >= 0 and hi - lo >= 32:
        cols = columns(x)
        if cols is not None:
            kind, cs = cols
            vals = [V.from_term(tm.tab(c if hi + 1 == n else c[:hi + 1], max(1, max(c).bit_length()), V.term(i)))
                    for c in cs]
            return kind(*vals) if kind is not tuple else tuple(vals)
    if hi - lo < 32 and all(type(e) is int or builtins.isinstance(e, SInt)
                            for e in x[lo:hi + 1]):
        r = x[lo]
        for j in range(lo + 1, hi + 1):
            r = V.ite(V.eqterm(i, j), x[j], r)
        return r
    if hi - lo < 256 and all(alike(e, x[lo]) for e in x[lo + 1:hi + 1]):
        return pickfrom(x, i, lo, hi)
    return x[V.CUR.concretize(i)]


_columns = {}


def columns(x):
    """The columns of a list of equally long tuples of small ints, or None."""
    r = _columns.get(id(x))
    if r is not None and r[0] is x and r[1] == x:
        return r[2]
    kind = type(x[0])
    k = len(x[0]) if builtins.isinstance(x[0], tuple) else 0
    out = None
    if k and all(type(e) is kind and len(e) == k and all(type(v) is int and v >= 0 for v in e) for e in x):
        out = (kind, [tuple(e[j] for e in x) for j in range(k)])
    _columns[id(x)] = (x, list(x), out)
    return out


def contains(c, x):
    isi = builtins.isinstance
    if isi(c, (SBytes, bytes, bytearray)):
        return V.as_sbytes(c).scontains(x)
    if isi(c, shim.SRange):
        return c.scontains(x)
    if isi(x, (SInt, SBool)):
        if isi(x, SBool):
            x = x.asint()
        if isi(x, SInt):
            if isi(c, range):
                return shim.SRange(c.start, c.stop, c.step).scontains(x)
            if type(c) in (list, tuple) and all(isi(e, (int, SInt)) for e in c):
                return V.mkbool(tm.or_b([V.eqterm(x, int(e) if not isi(e, SInt) else e)
                                         for e in c]))
            if isi(c, (set, frozenset, dict)):
                ks = list(c)
                if all(isi(e, (int, SInt)) for e in ks):
                    return V.mkbool(tm.or_b([V.eqterm(x, int(e) if not isi(e, SInt) else e)
                                             for e in ks]))
    if isi(x, SStr):
        if isi(c, str):
            p = x.v
            s = [ord(ch) for ch in c]
            return V.mkbool(tm.or_b([
                tm.and_b([V.char_eq(a, b) for a, b in zip(s[k:k + len(p)], p)])
                for k in range(len(s) - len(p) + 1)]))
        if isi(c, (set, frozenset, dict)):
            return any(bool(e == x) for e in c)
    return x in c


class Loader:
    """Holds one set of symbolically loaded modules."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.helpers = Helpers()
        self.mods = {}
        self.shims = shim.make_modules()
        self.builtins = shim.make_builtins()
        self.builtins['__import__'] = self._import
        self.builtins['_sx_'] = self.helpers
        self.state = []

    def _path(self, name):
        root = HERE if name.partition('.')[0] in ('refs', 'checks') else self.repo
        p = os.path.join(root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        """Load module `ndspy[.x]` from the repository."""
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
        path, pkg = self._path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        m = self._exec(name, path, pkg)
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def load_file(self, name, path):
        return self._exec(name, path, False)

    def _exec(self, name, path, pkg):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        rw = Rewriter(name)
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec', dont_inherit=True)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_sx_'] = self.helpers
        m.__dict__['_sx_k'] = types.SimpleNamespace(**{n: SBytes(b) for n, b in rw.consts})
        for n, b in rw.consts:
            m.__dict__[n] = SBytes(b)
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        self._snapshot(m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__', '')
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = f'{pkg}.{name}' if name else pkg
        if name.partition('.')[0] in ('ndspy', 'refs', 'checks'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(f'{name}.{f}')
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(name.partition('.')[0])
        if name in self.shims:
            if not fromlist and '.' in name:
                return self.shims[name.partition('.')[0]]
            return self.shims[name]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    # -- pristine module state for every path

    def _snapshot(self, m):
        seen = set()

        def grab(v, depth):
            if id(v) in seen or depth > 6:
                return
            if type(v) in (list, dict, set, shim.SDict, shim.SSet, SByteArray):
                seen.add(id(v))
                if type(v) is list:
                    self.state.append((v, list(v)))
                    for x in v[:64]:
                        grab(x, depth + 1)
                elif type(v) is SByteArray:
                    self.state.append((v, v.copy()))
                elif isinstance(v, dict):
                    self.state.append((v, [(k, x) for k, x in v.items()]))
                    for x in list(v.values())[:64]:
                        grab(x, depth + 1)
                else:
                    self.state.append((v, list(v)))
            elif isinstance(v, types.FunctionType):
                if id(v) in seen:
                    return
                seen.add(id(v))
                for d in (v.__defaults__ or ()):
                    grab(d, depth + 1)
                for d in (v.__kwdefaults__ or {}).values():
                    grab(d, depth + 1)
                self.state.append((v, dict(v.__dict__)))
            elif isinstance(v, (staticmethod, classmethod)):
                grab(v.__func__, depth)
            elif isinstance(v, property):
                for f in (v.fget, v.fset):
                    grab(f, depth)
            elif isinstance(v, type) and v.__module__ == m.__name__:
                seen.add(id(v))
                items = [(k, x) for k, x in vars(v).items()
                         if k not in ('__dict__', '__weakref__')]
                self.state.append((v, items))
                for k, x in items:
                    grab(x, depth + 1)
        g = m.__dict__
        names = {k: v for k, v in g.items() if k != '__builtins__'}
        self.state.append((m, names))
        for v in list(names.values()):
            grab(v, 0)

    def restore(self):
        for c in shim.CACHES:
            c.clear()
        for obj, old in self.state:
            if type(obj) is list:
                if len(obj) != len(old) or any(a is not b for a, b in zip(obj, old)):
                    obj[:] = old
            elif type(obj) is SByteArray:
                if obj.v != old.v or obj.r is not old.r:
                    c = old.copy()
                    obj.v, obj.r = c.v, c.r
            elif isinstance(obj, (dict, shim.SSet, set)) and not isinstance(obj, types.ModuleType):
                if isinstance(obj, dict):
                    cur = list(obj.items())
                    if len(cur) != len(old) or any(a[0] is not b[0] or a[1] is not b[1]
                                                   for a, b in zip(cur, old)):
                        obj.clear()
                        for k, v in old:
                            obj[k] = v
                else:
                    if set(obj) != set(old) or getattr(obj, '_p', None) is not None:
                        obj.clear()
                        for x in old:
                            obj.add(x)
            elif isinstance(obj, types.ModuleType):
                g = obj.__dict__
                for k in [k for k in g if k not in old and k != '__builtins__']:
                    if isinstance(g[k], types.ModuleType):
                        continue
                    del g[k]
                for k, v in old.items():
                    if g.get(k) is not v:
                        g[k] = v
            elif isinstance(obj, types.FunctionType):
                if obj.__dict__ != old:
                    obj.__dict__.clear()
                    obj.__dict__.update(old)
            elif isinstance(obj, type):
                have = dict(vars(obj))
                for k, v in old:
                    if have.get(k) is not v:
                        try:
                            setattr(obj, k, v)
                        except (AttributeError, TypeError):
                            pass
                names = {k for k, _ in old}
                for k in have:
                    if k not in names and k not in ('__dict__', '__weakref__'):
                        try:
                            delattr(obj, k)
                        except (AttributeError, TypeError):
                            pass
