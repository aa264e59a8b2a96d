"""
Path exploration by re-execution.

A harness is an ordinary function of one argument `e`.  In symbolic mode
e.int()/e.bytes()/... return symbolic values and every feasible path
through the harness and the code under test is executed once; at the end
of a path the solver is asked whether the path condition together with
the negation of the checked assertions is satisfiable.  In concrete mode
(class Concrete, concrete.py) the same harness runs on plain values
against the unmodified package.
"""

import sys
import time

import z3

from . import terms as tm
from .concrete import blob_default
from . import values as V
from .terms import T
from .values import SInt, SBool, SBytes, SByteArray, SStr


class Stop(BaseException):
    """Raised through the code under test to end a path."""


class Infeasible(Stop):
    pass


class Budget(Stop):
    pass


class Hang(Stop):
    pass


class Inconclusive(Stop):
    pass


class Skip(Stop):
    """Harness-level end of an uninteresting path."""


class Stats:
    def __init__(self):
        self.paths = 0
        self.checked = 0          # assertions evaluated on finished paths
        self.by_rewriting = 0
        self.by_solver = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.infeasible = 0
        self.validated = 0
        self.mismatch = []
        self.inconclusive = []
        self.complete = True
        self.notes = {}
        self.assumes = 0
        self.decisions = 0
        self.maxlen = 0


class Mdl:
    """A model: variable values and blob bytes."""

    def __init__(self, vals, blobs):
        self.vals = vals
        self.blobs = blobs
        self.memo = {}

    def blob(self, name, idx):
        d = self.blobs.get(name)
        if d is not None:
            v = d.get(idx)
            if v is not None:
                return v
        return blob_default(name, idx)

    def ev(self, t):
        return tm.evaluate(t, self, self.memo)


class Decision:
    __slots__ = ('kind', 'cond', 'taken', 'tried', 'forced', 'alt')

    def __init__(self, kind, cond, taken, forced):
        self.kind = kind      # 'b' branch, 'v' value, 'a' assumption
        self.cond = cond
        self.taken = taken
        self.tried = [taken]
        self.forced = forced  # no alternative to explore


class Explorer:
    """Explores one harness case."""

    def __init__(self, loader, timeout_ms=10000, max_paths=20000, deadline=None,
                 tick_limit=400000, max_values=400, validate=None, want_cvc5=False):
        self.loader = loader
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.tick_limit = tick_limit
        self.max_values = max_values
        self.validate = validate
        self.want_cvc5 = want_cvc5
        self.cvc5_diff = {'compared': 0, 'different': 0}
        self.exactformat = False
        self.concs = {}

        self.solver = z3.SolverFor('QF_ABV') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.sync = 0               # decisions asserted in the solver
        self.decisions = []
        self.pos = 0
        self.inputs = {}
        self.inputs_all = {}
        self.fs = {}
        self.violations = []
        self.base_asserted = set()
        self.pending_base = []
        self.model = Mdl({}, {})

    # -- context interface used by values/shim

    def note(self, s):
        self.stats.notes[s] = self.stats.notes.get(s, 0) + 1

    def tick(self):
        self.ticks += 1
        if self.ticks > self.tick_limit:
            raise Hang()
        if self.ticks & 0xFFF == 0 and self.deadline and time.time() > self.deadline:
            raise Budget()

    def marker(self, v):
        self.markers.append(v)
        return f'{V._MARK}{len(self.markers) - 1}{V._MARK}'

    def blobbyte(self, name, off):
        return tm.sel(name, V.mat(off, 32))

    def branch(self, cond):
        if self.dead:
            raise self.dead
        # a condition (or its negation) already decided on this path
        known = self.known.get(cond)
        if known is not None:
            return known
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if d.cond is not cond or d.kind != 'b':
                self._die(Inconclusive('execution is not deterministic'))
            self.pos += 1
            self._learn(cond, d.taken)
            return d.taken
        if self.deadline and time.time() > self.deadline:
            self._die(Budget())
        v = bool(self.model.ev(cond))
        d = Decision('b', cond, v, False)
        self.decisions.append(d)
        self.pos += 1
        self.stats.decisions += 1
        self._learn(cond, v)
        return v

    def _learn(self, cond, v):
        self.known[cond] = v
        self.known[tm.not_b(cond)] = not v
        if v and cond.k == 'band':
            for c in cond.a:
                self._learn(c, True)
        elif not v and cond.k == 'bor':
            for c in cond.a:
                self._learn(c, False)

    def concretize(self, x):
        if not isinstance(x, SInt):
            return int(x)
        if self.dead:
            raise self.dead
        if x.lo == x.hi:
            return x.lo
        key = (x.c, x.ts)
        if key in self.conc:
            return self.conc[key]
        off = x.lo
        y = x - off
        if not isinstance(y, SInt):
            return y + off
        w = max(1, y.hi.bit_length())
        t = V.mat(y, w)
        if t.k == 'c':
            return t.a + off
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if d.cond is not t or d.kind != 'v':
                self._die(Inconclusive('execution is not deterministic'))
            self.pos += 1
            v = d.taken
        else:
            if self.deadline and time.time() > self.deadline:
                self._die(Budget())
            v = self.model.ev(t)
            d = Decision('v', t, v, False)
            self.decisions.append(d)
            self.pos += 1
            self.stats.decisions += 1
        self.conc[key] = v + off
        fr = sys._getframe(1)
        while fr is not None and '/symx/' in fr.f_code.co_filename:
            fr = fr.f_back
        if fr is not None:
            k = f'{fr.f_code.co_filename.rsplit("/", 1)[-1]}:{fr.f_lineno}'
            self.concs[k] = self.concs.get(k, 0) + 1
        return v + off

    def _die(self, exc):
        self.dead = exc
        raise exc

    # -- harness interface

    symbolic = True

    def _input(self, name, kind, spec):
        if name in self.inputs and self.inputs[name] != (kind, spec):
            raise AssertionError('input name reused: ' + name)
        self.inputs[name] = (kind, spec)

    def int(self, name, lo, hi):
        """Any integer in lo .. hi"""
        self._input(name, 'int', (lo, hi))
        if lo == hi:
            return lo
        n = hi - lo
        w = n.bit_length()
        t = tm.var(f'{name}[{lo}..{hi}]', w, n)
        if n != (1 << w) - 1:
            self._base(tm.not_b(tm._mk('ult', 0, (tm.const(n, w), t))))
        return V.from_term(t) + lo

    def _base(self, c):
        if c not in self.base_asserted:
            self.base_asserted.add(c)
            self.pending_base.append(c)

    def bool(self, name):
        self._input(name, 'bool', ())
        return V.mkbool(tm.boolvar(name))

    def choice(self, name, options):
        """One of the given (concrete) options; forks."""
        i = self.int(name, 0, len(options) - 1)
        return options[self.concretize(i)]

    def pick(self, name, lo, hi):
        """An integer in lo..hi, enumerated (forks)."""
        return self.concretize(self.int(name, lo, hi))

    def bytes(self, name, n, nonzero=False):
        self._input(name, 'bytes', (n,))
        ts = [tm.var(f'{name}.{i}', 8) for i in range(n)]
        return SBytes(ts) if n else SBytes(b'')

    def str(self, name, n, lo=0x20, hi=0x7E, exclude=''):
        """A string of n characters from lo .. hi."""
        self._input(name, 'str', (n, lo, hi, exclude))
        cs = []
        for i in range(n):
            m = hi - lo
            w = m.bit_length()
            t = tm.var(f'{name}.{i}[{lo}..{hi}]', w, m)
            if m != (1 << w) - 1:
                self._base(tm.not_b(tm._mk('ult', 0, (tm.const(m, w), t))))
            x = V.from_term(t) + lo
            for ch in exclude:
                self.assume(V.mkbool(tm.not_b(V.eqterm(x, ord(ch)))))
            cs.append(V.term(x))
        return SStr(cs) if n else ''

    def blob(self, name, lo, hi):
        """Opaque bytes of any length lo .. hi; contents are generic."""
        n = self.int(name + '#len', lo, hi)
        self._input(name, 'blob', (lo, hi))
        if not isinstance(n, SInt):
            if n == 0:
                return SBytes(b'')
        return SBytes._of([('z', name, 0, n)])

    def assume(self, cond):
        if not isinstance(cond, SBool):
            if not cond:
                self._die(Infeasible())
            return
        t = cond.t
        if self.dead:
            raise self.dead
        known = self.known.get(t)
        if known is not None:
            if not known:
                self._die(Infeasible())
            return
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if d.cond is not t or d.kind != 'a':
                self._die(Inconclusive('execution is not deterministic'))
            self.pos += 1
            self._learn(t, True)
            return
        self.stats.assumes += 1
        d = Decision('a', t, True, True)
        if not self.model.ev(t):
            r = self._query(extra=[t])
            if r == 'unsat':
                self._die(Infeasible())
            if r != 'sat':
                self._die(Inconclusive('solver gave no answer for an assumption'))
        self.decisions.append(d)
        self.pos += 1
        self._learn(t, True)

    def check(self, cond, msg):
        """Assertion, decided for all inputs of the path at its end."""
        self.stats.checked += 1
        self.nchecks += 1
        t = tm.settle(V.boolterm(cond))
        if t is tm.TRUE:
            self.stats.by_rewriting += 1
            return
        self.checks.append((t, msg))
        if t is tm.FALSE or not self.model.ev(t):
            raise _Fail(msg)

    def fail(self, msg):
        self.check(False, msg)

    def eq(self, a, b):
        return V.mkbool(deep_eq(a, b))

    def check_eq(self, a, b, msg):
        self.check(self.eq(a, b), msg)

    def check_all(self, conds, msg):
        self.check(V.mkbool(tm.and_b([V.boolterm(c) for c in conds])), msg)

    def all(self, conds):
        return V.mkbool(tm.and_b([V.boolterm(c) for c in conds]))

    def any(self, conds):
        return V.mkbool(tm.or_b([V.boolterm(c) for c in conds]))

    def implies(self, a, b):
        return V.mkbool(tm.or_b([tm.not_b(V.boolterm(a)), V.boolterm(b)]))

    def ite(self, c, a, b):
        return V.ite(V.boolterm(c), a, b)

    def out(self, name, value):
        """Observation compared with the concrete run."""
        self.outs.append((name, snapshot(value)))

    def skip(self):
        self._die(Skip())

    def raises(self, excs, fn, *a, **kw):
        """Call fn; the exception if one of excs is raised, else None
        (the result is then in self.result)."""
        try:
            self.result = fn(*a, **kw)
        except excs as ex:
            self.result = None
            return ex
        return None

    def path(self, name):
        return '/vfs/' + name

    def readfile(self, p):
        return self.fs.get(p)

    def writefile(self, p, data):
        self.fs[p] = V.as_sbytes(data)

    def concrete(self, x):
        """Fork until x is concrete."""
        if isinstance(x, SInt):
            return self.concretize(x)
        if isinstance(x, SBool):
            return bool(x)
        if isinstance(x, SBytes):
            return V.concretize_bytes(x)
        return x

    # -- solving

    def _assert(self, t):
        self.solver.add(tm.toz3(t))

    def _flush_base(self):
        # bounds on inputs hold on every path: assert below all scopes
        if self.pending_base:
            n = self.solver.num_scopes()
            if n:
                self.solver.pop(n)
            self.sync = 0
            for c in self.pending_base:
                self._assert(c)
            self.pending_base = []

    def _cond_of(self, d):
        if d.kind == 'v':
            return tm.eq(d.cond, tm.const(d.taken, d.cond.w))
        return d.cond if d.taken else tm.not_b(d.cond)

    def _sync_to(self, n):
        self._flush_base()
        if self.sync > n:
            self.solver.pop(self.sync - n)
            self.sync = n
        while self.sync < n:
            self.solver.push()
            self._assert(self._cond_of(self.decisions[self.sync]))
            self.sync += 1

    def _query(self, extra, upto=None):
        """Satisfiability of the first `upto` decisions plus extra terms.
        Updates the model on sat."""
        if upto is None:
            upto = len(self.decisions)
        for t in extra:
            if t is tm.FALSE:
                return 'unsat'
        self._sync_to(upto)
        self.solver.push()
        for t in extra:
            self._assert(t)
        t0 = time.time()
        if self.deadline:
            left = int((self.deadline - t0) * 1000)
            self.solver.set('timeout', max(50, min(self.timeout_ms, left)))
        r = str(self.solver.check())
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        if r == 'sat':
            self.stats.sat += 1
            self.model = self._extract(extra, upto)
        elif r == 'unsat':
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        if self.want_cvc5 and r in ('sat', 'unsat'):
            self._cvc5(r)
        self.solver.pop()
        return r

    def _cvc5(self, r):
        if self.cvc5_diff['compared'] >= 60:
            return
        from . import second
        r2 = second.check(self.solver)
        if r2 in ('sat', 'unsat'):
            self.cvc5_diff['compared'] += 1
            if r2 != r:
                self.cvc5_diff['different'] += 1
                raise AssertionError('solvers disagree')

    def _extract(self, extra, upto):
        m = self.solver.model()
        vals = {}
        for dcl in m.decls():
            v = m[dcl]
            n = dcl.name()
            if z3.is_bv_value(v):
                vals[n] = v.as_long()
            elif z3.is_true(v):
                vals[n] = True
            elif z3.is_false(v):
                vals[n] = False
        mdl = Mdl(vals, {})
        conds = [self._cond_of(d) for d in self.decisions[:upto]] + list(extra)
        sels = [x for x in tm.variables(conds) if x.k == 'sel']
        if sels:
            # innermost first is not needed: indices never contain reads
            for s in sels:
                idx = m.eval(tm.toz3(s.a[1]), model_completion=True).as_long()
                val = m.eval(tm.toz3(s), model_completion=True).as_long()
                mdl.blobs.setdefault(s.a[0], {})[idx] = val
        return mdl

    # -- exploration

    def run(self, fn):
        """Explore all paths of fn(self)."""
        V.set_context(self)
        first = True
        while True:
            if self.deadline and time.time() > self.deadline:
                self.stats.complete = False
                break
            if self.stats.paths + self.stats.infeasible >= self.max_paths:
                self.stats.complete = False
                self.note('path limit reached')
                break
            self._one(fn)
            if len(self.violations) >= 3:
                self.stats.complete = False
                break
            if not self._backtrack():
                break
        V.set_context(None)
        return self.stats

    def _one(self, fn):
        self.pos = 0
        self.ticks = 0
        self.dead = None
        self.checks = []
        self.nchecks = 0
        self.outs = []
        self.markers = []
        self.known = {}
        self.conc = {}
        self.inputs = {}
        self.fs = {}
        V.reset()
        if self.loader is not None:
            self.loader.restore()
        st = self.stats
        try:
            fn(self)
            if self.dead:
                raise self.dead
        except Infeasible:
            st.infeasible += 1
            return
        except Skip:
            st.infeasible += 1
            return
        except Budget:
            st.complete = False
            return
        except Hang:
            self._violation('no termination within the step limit', 'hang')
            return
        except Inconclusive as ex:
            st.complete = False
            st.inconclusive.append(str(ex))
            return
        except _Fail as ex:
            self._violation(str(ex), 'check')
            return
        except RecursionError as ex:
            self._violation('RecursionError', 'exception')
            return
        except Exception as ex:
            if self.dead:
                d = self.dead
                st.complete = False
                st.inconclusive.append(type(d).__name__)
                return
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)
            where = ''
            for fr in reversed(tb):
                if '/symx/' not in fr.filename:
                    where = f'{fr.filename.rsplit("/", 1)[-1]}:{fr.lineno}'
                    break
            try:
                s = str(ex)
            except Exception:
                s = '?'
            self._violation(f'{type(ex).__name__} raised: {s} ({where})', 'exception',
                            ''.join(traceback.format_exception(ex))[-3000:])
            return
        # path finished: decide the assertions for all its inputs
        st.paths += 1
        st.maxlen = max(st.maxlen, len(self.decisions))
        if self.checks:
            bad = tm.or_b([tm.not_b(t) for t, _ in self.checks])
            if bad is tm.FALSE:
                st.by_rewriting += len(self.checks)
            else:
                keep = self.model
                r = self._query([bad])
                if r == 'sat':
                    for t, msg in self.checks:
                        if not self.model.ev(t):
                            break
                    else:
                        # the model relies on blob contents we replaced
                        msg = self.checks[0][1]
                    self._violation(msg, 'check')
                    self.model = keep
                    return
                elif r == 'unsat':
                    st.by_solver += len(self.checks)
                else:
                    st.complete = False
                    st.inconclusive.append('solver: unknown')
        if self.validate:
            self.validate(self)

    def _violation(self, msg, kind, tb=None):
        self.stats.paths += 1
        self.violations.append({'msg': msg, 'kind': kind, 'tb': tb,
                                'inputs': self.model_inputs()})

    def model_inputs(self):
        """Concrete inputs of the current path from the current model."""
        m = self.model
        out = {}
        for name, (kind, spec) in self.inputs.items():
            if kind == 'int':
                lo, hi = spec
                v = 0 if lo == hi else m.vals.get(f'{name}[{lo}..{hi}]', 0)
                out[name] = lo + v
            elif kind == 'bool':
                out[name] = bool(m.vals.get(name, False))
            elif kind == 'bytes':
                out[name] = bytes(m.vals.get(f'{name}.{i}', 0) for i in range(spec[0])).hex()
            elif kind == 'str':
                n, lo, hi, _ = spec
                out[name] = [lo + m.vals.get(f'{name}.{i}[{lo}..{hi}]', 0) for i in range(n)]
        for name, (kind, spec) in self.inputs.items():
            if kind == 'blob':
                n = out[name + '#len']
                ov = {str(i): v for i, v in sorted(m.blobs.get(name, {}).items()) if i < n}
                out[name] = {'overrides': ov}
        return out

    def _backtrack(self):
        """Find the next unexplored alternative.  False when done."""
        while self.decisions:
            d = self.decisions[-1]
            n = len(self.decisions) - 1
            if d.forced:
                self.decisions.pop()
                continue
            if d.kind == 'b':
                alt = tm.not_b(d.cond) if d.taken else d.cond
                r = self._query([alt], upto=n)
                if r == 'sat':
                    d.taken = not d.taken
                    d.forced = True
                    self._trim(n)
                    return True
                if r != 'unsat':
                    self.stats.complete = False
                    self.stats.inconclusive.append('solver: unknown')
                self.decisions.pop()
                continue
            # value enumeration
            if len(d.tried) >= self.max_values:
                self.stats.complete = False
                self.note('value enumeration cut off')
                self.decisions.pop()
                continue
            neq = tm.and_b([tm.not_b(tm.eq(d.cond, tm.const(v, d.cond.w))) for v in d.tried])
            r = self._query([neq], upto=n)
            if r == 'sat':
                v = self.model.ev(d.cond)
                if v in d.tried:
                    # blob byte left open by the model
                    self.stats.complete = False
                    self.note('value enumeration stopped (model replaced)')
                    self.decisions.pop()
                    continue
                d.taken = v
                d.tried.append(v)
                self._trim(n)
                return True
            if r != 'unsat':
                self.stats.complete = False
                self.stats.inconclusive.append('solver: unknown')
            self.decisions.pop()
        return False

    def _trim(self, n):
        if self.sync > n:
            self.solver.pop(self.sync - n)
            self.sync = n


class _Fail(Stop):
    pass


# ---------------------------------------------------------------------------

def snapshot(v):
    """Immutable copy of an observed value (symbolic parts kept)."""
    if isinstance(v, SByteArray):
        return v.tobytes()
    if isinstance(v, (bytearray,)):
        return bytes(v)
    if isinstance(v, dict):
        return {'d': [(snapshot(k), snapshot(x)) for k, x in v.items()]}
    if isinstance(v, (set, frozenset)):
        return [snapshot(x) for x in sorted(v)]
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    if hasattr(v, 'tobytes') and hasattr(v, 'size') and hasattr(v, 'mode'):
        return [v.mode, list(v.size), snapshot(v.tobytes())]
    return v


def materialize(v, mdl):
    """Concrete value of an observation under a model."""
    if isinstance(v, SInt):
        return v.c + sum(k * mdl.ev(t) for t, k in v.ts)
    if isinstance(v, SBool):
        return bool(mdl.ev(v.t))
    if isinstance(v, SBytes):
        out = bytearray()
        for s in V.segs_of(v):
            if s[0] == 'k':
                out.extend(mdl.ev(x) if isinstance(x, T) else x for x in s[1])
            else:
                n = s[-1]
                n = materialize(n, mdl) if isinstance(n, SInt) else n
                if s[0] == 'f':
                    x = s[1]
                    out.extend(bytes([mdl.ev(x) if isinstance(x, T) else x]) * n)
                else:
                    o = materialize(s[2], mdl) if isinstance(s[2], SInt) else s[2]
                    out.extend(mdl.blob(s[1], o + i) for i in range(n))
        return bytes(out)
    if isinstance(v, SStr):
        return ''.join(chr(mdl.ev(c) if isinstance(c, T) else c) for c in v.v)
    if isinstance(v, dict):
        return {'d': [(materialize(k, mdl), materialize(x, mdl)) for k, x in v['d']]}
    if isinstance(v, list):
        return [materialize(x, mdl) for x in v]
    return v


def deep_eq(a, b, depth=0):
    """Structural equality as a term (objects of unknown classes by ==)."""
    if a is b:
        return tm.TRUE
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if not (V.isintlike(a) and V.isintlike(b)):
            return tm.FALSE
        a = a.asint() if isinstance(a, SBool) else a
        b = b.asint() if isinstance(b, SBool) else b
        return V.eqterm(a if isinstance(a, SInt) else int(a), b if isinstance(b, SInt) else int(b))
    if V.isbyteslike(a) or V.isbyteslike(b):
        if not (V.isbyteslike(a) and V.isbyteslike(b)):
            return tm.FALSE
        return V.bytes_eq(a, b)
    if isinstance(a, SStr) or isinstance(b, SStr):
        if not (V.isstrlike(a) and V.isstrlike(b)):
            return tm.FALSE
        return a.eqterm(b) if isinstance(a, SStr) else b.eqterm(a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return tm.FALSE
        return tm.and_b([deep_eq(x, y, depth + 1) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return tm.FALSE
        ks = list(a.keys())
        cs = []
        for k in ks:
            if k not in b:
                return tm.FALSE
            cs.append(deep_eq(a[k], b[k], depth + 1))
        return tm.and_b(cs)
    return V.boolterm(a == b)
