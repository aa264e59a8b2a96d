"""
Symbolic Python values: exact integers, conditions, byte strings and
strings whose contents (and, for byte strings, lengths) are terms.

The ndspy sources run unmodified on these objects (see loader.py).  An
integer is a linear form over unsigned terms, so Python's unbounded
arithmetic is represented exactly: no wrap-around is ever assumed.
"""

import bisect
import builtins
import codecs
import math

from . import terms as tm
from .terms import T

_int = builtins.int
_bytes = builtins.bytes
_bytearray = builtins.bytearray
_len = builtins.len
_isinstance = builtins.isinstance


# The current execution context; set by the engine.  Provides
# branch(T) -> bool, concretize(SInt) -> int.
CUR = None


class NoContext(Exception):
    pass


def set_context(ctx):
    global CUR
    CUR = ctx


def branch(cond):
    if cond is tm.TRUE:
        return True
    if cond is tm.FALSE:
        return False
    if cond.d > tm.DEEP:
        cond = tm.settle(cond)
        if cond is tm.TRUE or cond is tm.FALSE:
            return cond is tm.TRUE
    return CUR.branch(cond)


# ---------------------------------------------------------------------------
# Conditions

class SBool:
    __slots__ = ('t',)
    __module__ = 'symx'

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return branch(self.t)

    def __index__(self):
        return _int(branch(self.t))

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def asint(self):
        return from_term(tm.ite(self.t, tm.const(1, 1), tm.const(0, 1)))

    def __eq__(self, o):
        if _isinstance(o, SBool):
            return mkbool(tm.or_b([tm.and_b([self.t, o.t]),
                                   tm.and_b([tm.not_b(self.t), tm.not_b(o.t)])]))
        if o is True:
            return mkbool(self.t)
        if o is False:
            return mkbool(tm.not_b(self.t))
        if _isinstance(o, (_int, SInt)):
            return self.asint() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return lnot(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if _isinstance(o, (bool, SBool)):
            return mkbool(tm.and_b([self.t, boolterm(o)]))
        return self.asint() & o
    __rand__ = __and__

    def __or__(self, o):
        if _isinstance(o, (bool, SBool)):
            return mkbool(tm.or_b([self.t, boolterm(o)]))
        return self.asint() | o
    __ror__ = __or__

    def __xor__(self, o):
        if _isinstance(o, (bool, SBool)):
            return lnot(self == o)
        return self.asint() ^ o
    __rxor__ = __xor__

    def to_bytes(self, *a, **k):
        x = self.asint()
        return (mkconst(x) if _isinstance(x, _int) else x).to_bytes(*a, **k)

    def bit_length(self):
        return self.asint()

    def __invert__(self):
        return ~self.asint()

    def __neg__(self):
        return -self.asint()

    def __pos__(self):
        return self.asint()

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, spec):
        return marker(self)


def _deleg(name):
    def f(self, o):
        if not _isinstance(o, (_int, SInt, SBool)):
            return NotImplemented
        x = self.asint()
        if _isinstance(x, _int):
            x = mkconst(x)
        return getattr(x, name)(o)
    f.__name__ = name
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__',
           '__lshift__', '__rlshift__', '__rshift__', '__rrshift__',
           '__floordiv__', '__rfloordiv__', '__mod__', '__rmod__',
           '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(SBool, _n, _deleg(_n))


def mkbool(t):
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    return SBool(t)


def boolterm(v):
    """Truth value of v as a boolean term (forks only if unavoidable)."""
    if v is True:
        return tm.TRUE
    if v is False or v is None:
        return tm.FALSE
    if _isinstance(v, SBool):
        return v.t
    if _isinstance(v, SInt):
        return tm.not_b(eqterm(v, 0))
    if _isinstance(v, T):
        return v
    return tm.TRUE if v else tm.FALSE


def lnot(v):
    if _isinstance(v, SBool):
        return mkbool(tm.not_b(v.t))
    if _isinstance(v, SInt):
        return mkbool(eqterm(v, 0))
    return not v


# ---------------------------------------------------------------------------
# Markers: a symbolic value formatted into a string

_MARK = '﷐'


def marker(v):
    return CUR.marker(v) if CUR is not None else '<symbolic>'


def hasmarker(s):
    return _MARK in s


def resolve_markers(s):
    """Replace markers in a format-like string by concrete values."""
    if _MARK not in s:
        return s
    parts = s.split(_MARK)
    out = []
    for i, p in enumerate(parts):
        if i % 2:
            v = CUR.markers[_int(p)]
            if _isinstance(v, SInt):
                out.append(str(CUR.concretize(v)))
            elif _isinstance(v, SBool):
                out.append(str(bool(v)))
            elif _isinstance(v, SStr):
                out.append(v.concretize())
            else:
                out.append(str(concretize_bytes(v)))
        else:
            out.append(p)
    return ''.join(out)


# ---------------------------------------------------------------------------
# Integers

# Linear forms remembered for terms that were stored into bytes, so that
# reading them back gives the same form.  Cleared for every path, because
# an entry may rely on a range check that the path went through.
_lin_of = {}      # stripped unsigned term -> (c, ts, lo, hi)
_slin_of = {}     # two's complement term -> (c, ts, lo, hi)


def reset():
    _lin_of.clear()
    _slin_of.clear()


class SInt:
    """c + sum k_i * t_i, with lo <= value <= hi."""
    __slots__ = ('c', 'ts', 'lo', 'hi')
    __module__ = 'symx'

    def __init__(self, c, ts, lo, hi):
        self.c = c
        self.ts = ts
        self.lo = lo
        self.hi = hi

    # -- arithmetic

    def __add__(self, o):
        if _isinstance(o, _int):
            if o == 0:
                return self
            return SInt(self.c + _int(o), self.ts, self.lo + o, self.hi + o)
        if _isinstance(o, SBool):
            o = o.asint()
            return self + o
        if not _isinstance(o, SInt):
            return _fallback(self, o, 'add')
        return _linadd(self, o, 1)
    __radd__ = __add__

    def __neg__(self):
        return SInt(-self.c, tuple((t, -k) for t, k in self.ts), -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _isinstance(o, _int):
            return self + (-o)
        if _isinstance(o, SBool):
            o = o.asint()
            return self - o
        if not _isinstance(o, SInt):
            return _fallback(self, o, 'sub')
        return _linadd(self, o, -1)

    def __rsub__(self, o):
        if _isinstance(o, (_int, SBool)):
            return (-self) + o
        return _fallback(o, self, 'sub', True)

    def __mul__(self, o):
        if _isinstance(o, SBool):
            o = o.asint()
        if _isinstance(o, _int):
            o = _int(o)
            if o == 0:
                return 0
            if o == 1:
                return self
            a, b = self.lo * o, self.hi * o
            return SInt(self.c * o, tuple((t, k * o) for t, k in self.ts),
                        min(a, b), max(a, b))
        if _isinstance(o, SInt):
            cs = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
            lo, hi = min(cs), max(cs)
            if self.lo >= 0 and o.lo >= 0:
                w = max(1, hi.bit_length())
                return from_term(tm.mul(mat(self, w), mat(o, w)))
            w = sbits(lo, hi)
            return from_signed(tm.mul(mat(self, w), mat(o, w)), lo, hi)
        if _isinstance(o, float):
            return float(self) * o
        if _isinstance(o, (list, tuple, str, _bytes, _bytearray)):
            return o * self.__index__()
        return NotImplemented

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o):
        if _isinstance(o, SBool):
            o = o.asint()
        if _isinstance(o, _int):
            o = _int(o)
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o < 0:
                return (-self) // (-o)
            if o == 1:
                return self
            q, r = _splitdiv(self, o)
            if r is None:
                return q
            x = self
            if o & (o - 1) == 0:
                s = o.bit_length() - 1
                if x.lo >= 0:
                    t = term(x)
                    if t.w <= s:
                        return 0
                    return from_term(tm.extract(t, s, t.w - s))
                w = max(sbits(x.lo, x.hi), s + 1)
                t = mat(x, w)
                return from_signed(tm.extract(t, s, w - s), x.lo >> s, x.hi >> s)
            if x.lo >= 0:
                t = term(x)
                w = max(t.w, o.bit_length())
                return from_term(tm.udiv(tm.zext(t, w), tm.const(o, w)))
            k = (-x.lo + o - 1) // o
            return (x + k * o) // o - k
        if _isinstance(o, SInt):
            if branch(eqterm(o, 0)):
                raise ZeroDivisionError('integer division or modulo by zero')
            if self.lo >= 0 and o.lo >= 0:
                w = max(1, self.hi.bit_length(), o.hi.bit_length())
                return from_term(tm.udiv(mat(self, w), mat(o, w)))
            return self // CUR.concretize(o)
        if _isinstance(o, float):
            return float(self) // o
        return NotImplemented

    def __rfloordiv__(self, o):
        if _isinstance(o, (_int, SBool)):
            return mkconst(_int(o)) // self
        return NotImplemented

    def __mod__(self, o):
        if _isinstance(o, SBool):
            o = o.asint()
        if _isinstance(o, _int):
            o = _int(o)
            if o == 0:
                raise ZeroDivisionError('integer modulo by zero')
            if o < 0:
                return -((-self) % (-o))
            if o == 1:
                return 0
            if self.hi <= 0 and self.lo < 0 and CUR is not None and _len(self.ts) > 1:
                # Distance to the next multiple.  Deciding here whether it
                # is 0 leaves a linear form, which nests well.
                r = (-self) % o
                if not _isinstance(r, SInt):
                    return -r % o
                return 0 if branch(eqterm(r, 0)) else o - r
            if 0 <= self.lo and self.hi == o and CUR is not None and _len(self.ts) == 1 \
                    and self.ts[0][1] < 0:
                return 0 if branch(eqterm(self, o)) else SInt(self.c, self.ts, self.lo, o - 1)
            if o & (o - 1) == 0:
                s = o.bit_length() - 1
                return from_term(mat(self, s))
            q, r = _splitdiv(self, o)
            if r is not None:
                x = r
            else:
                return _splitmod(self, o)
            if x.lo >= 0:
                if x.hi < o:
                    return x
                t = term(x)
                w = max(t.w, o.bit_length())
                return from_term(tm.urem(tm.zext(t, w), tm.const(o, w)))
            k = (-x.lo + o - 1) // o
            t = term(x + k * o)
            w = max(t.w, o.bit_length())
            return from_term(tm.urem(tm.zext(t, w), tm.const(o, w)))
        if _isinstance(o, SInt):
            if branch(eqterm(o, 0)):
                raise ZeroDivisionError('integer modulo by zero')
            if self.lo >= 0 and o.lo >= 0:
                w = max(1, self.hi.bit_length(), o.hi.bit_length())
                return from_term(tm.urem(mat(self, w), mat(o, w)))
            return self % CUR.concretize(o)
        if _isinstance(o, float):
            return float(self) % o
        return NotImplemented

    def __rmod__(self, o):
        if _isinstance(o, (_int, SBool)):
            return mkconst(_int(o)) % self
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        if _isinstance(o, SInt):
            r = _quo(self, o)
            if r is not None:
                return r
            o = CUR.concretize(o)
        if type(o) in (_int, float) and o == _int(o) and 0 < o < 1 << 30 \
                and -(1 << 50) < self.lo and self.hi < 1 << 50:
            return SRat(self, _int(o))
        return CUR.concretize(self) / o

    def __rtruediv__(self, o):
        r = _quo(o, self)
        return o / CUR.concretize(self) if r is None else r

    def __pow__(self, o, m=None):
        if _isinstance(o, SInt):
            o = CUR.concretize(o)
        if m is not None:
            return pow(CUR.concretize(self), o, m)
        if _isinstance(o, _int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return CUR.concretize(self) ** o

    def __rpow__(self, o, m=None):
        if _isinstance(o, _int) and o > 0 and (o & (o - 1)) == 0 and self.lo >= 0:
            return 1 << (self * (o.bit_length() - 1))
        return o ** CUR.concretize(self)

    def __lshift__(self, o):
        if _isinstance(o, SBool):
            o = o.asint()
        if _isinstance(o, _int):
            if o < 0:
                raise ValueError('negative shift count')
            return self * (1 << _int(o))
        if _isinstance(o, SInt):
            if o.lo < 0 and branch(ltterm(o, 0)):
                raise ValueError('negative shift count')
            if self.lo >= 0 and o.lo >= 0 and o.hi <= 64:
                w = max(1, self.hi.bit_length() + o.hi, o.hi.bit_length())
                return from_term(tm.shl(mat(self, w), mat(o, w)))
            return self << CUR.concretize(o)
        return NotImplemented

    def __rlshift__(self, o):
        if _isinstance(o, (_int, SBool)):
            return mkconst(_int(o)) << self
        return NotImplemented

    def __rshift__(self, o):
        if _isinstance(o, SBool):
            o = o.asint()
        if _isinstance(o, _int):
            if o < 0:
                raise ValueError('negative shift count')
            return self // (1 << _int(o))
        if _isinstance(o, SInt):
            if o.lo < 0 and branch(ltterm(o, 0)):
                raise ValueError('negative shift count')
            if self.lo >= 0 and o.lo >= 0:
                w = max(1, self.hi.bit_length(), o.hi.bit_length())
                return from_term(tm.lshr(mat(self, w), mat(o, w)))
            return self >> CUR.concretize(o)
        return NotImplemented

    def __rrshift__(self, o):
        if _isinstance(o, (_int, SBool)):
            return mkconst(_int(o)) >> self
        return NotImplemented

    def __and__(self, o):
        if _isinstance(o, SBool):
            o = o.asint()
        if _isinstance(o, _int):
            o = _int(o)
            if o >= 0:
                if o == 0:
                    return 0
                w = o.bit_length()
                return from_term(tm.and_(mat(self, w), tm.const(o, w)))
            if self.lo >= 0:
                t = term(self)
                return from_term(tm.and_(t, tm.const(o, t.w)))
            return self - (self & (-o - 1))
        if _isinstance(o, SInt):
            if self.lo >= 0 and o.lo >= 0:
                w = max(1, min(self.hi.bit_length(), o.hi.bit_length()))
                return from_term(tm.and_(mat(self, w), mat(o, w)))
            if self.lo >= 0 or o.lo >= 0:
                w = max(1, (self if self.lo >= 0 else o).hi.bit_length())
                return from_term(tm.and_(mat(self, w), mat(o, w)))
            w = max(sbits(self.lo, self.hi), sbits(o.lo, o.hi))
            return from_signed(tm.and_(mat(self, w), mat(o, w)))
        return NotImplemented
    __rand__ = __and__

    def _bit(self, o, f):
        if _isinstance(o, SBool):
            o = o.asint()
        if _isinstance(o, _int):
            o = mkconst(_int(o))
        if not _isinstance(o, SInt):
            return NotImplemented
        if self.lo >= 0 and o.lo >= 0:
            w = max(1, self.hi.bit_length(), o.hi.bit_length())
            return from_term(f(mat(self, w), mat(o, w)))
        w = max(sbits(self.lo, self.hi), sbits(o.lo, o.hi))
        return from_signed(f(mat(self, w), mat(o, w)))

    def __or__(self, o):
        if _isinstance(o, _int) and o == 0:
            return self
        return self._bit(o, tm.or_)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, tm.xor)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return ite(ltterm(self, 0), -self, self)

    # -- comparisons

    def __eq__(self, o):
        if _isinstance(o, (_int, SInt)):
            return mkbool(eqterm(self, o))
        if _isinstance(o, SBool):
            return mkbool(eqterm(self, o.asint()))
        if _isinstance(o, float):
            if o.is_integer():
                return mkbool(eqterm(self, _int(o)))
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return lnot(r)

    def __lt__(self, o):
        if _isinstance(o, (_int, SInt)):
            return mkbool(ltterm(self, o))
        if _isinstance(o, SBool):
            return self < o.asint()
        if _isinstance(o, float):
            import math
            return self < math.ceil(o)
        return NotImplemented

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else lnot(r)

    def __gt__(self, o):
        if _isinstance(o, (_int, SInt)):
            return mkbool(ltterm(o, self))
        if _isinstance(o, SBool):
            return self > o.asint()
        if _isinstance(o, float):
            import math
            return self > math.floor(o)
        return NotImplemented

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else lnot(r)

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return not branch(eqterm(self, 0))

    # -- conversions

    def __index__(self):
        return CUR.concretize(self)

    def __int__(self):
        return CUR.concretize(self)

    def __hash__(self):
        return hash(CUR.concretize(self))

    def __float__(self):
        return float(CUR.concretize(self))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def bit_length(self):
        x = abs(self)
        if _isinstance(x, _int):
            return x.bit_length()
        r = 0
        n = x.hi.bit_length()
        out = tm.const(0, max(1, n.bit_length()))
        for i in range(n):
            out = tm.ite(tm.not_b(ltterm(x, 1 << i)), tm.const(i + 1, out.w), out)
        return from_term(out)

    def bit_count(self):
        return CUR.concretize(self).bit_count()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if _isinstance(length, SInt):
            length = CUR.concretize(length)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed \
            else (0, (1 << (8 * length)) - 1)
        if length == 0:
            lo = hi = 0
        if not inrange(self, lo, hi):
            raise OverflowError('int too big to convert')
        if length == 0:
            return SBytes([])
        t = mat(self, 8 * length)
        bs = [norm(tm.extract(t, 8 * i, 8)) for i in range(length)]
        if byteorder == 'big':
            bs.reverse()
        return SBytes(bs)

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    @property
    def numerator(self):
        return self

    @property
    def real(self):
        return self

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, spec):
        if spec:
            return format(CUR.concretize(self), spec) if CUR.exactformat else marker(self)
        return marker(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _fallback(a, b, op, swapped=False):
    if _isinstance(a, float) or _isinstance(b, float):
        a, b = float(a), float(b)
        return a + b if op == 'add' else a - b
    return NotImplemented


def mkconst(v):
    """A constant in SInt clothing (only used transiently)."""
    return SInt(v, (), v, v)


def mkint(c, ts, lo, hi):
    if not ts:
        return c
    if lo == hi:
        return lo
    return SInt(c, ts, lo, hi)


def _bounds(c, ts):
    lo = hi = c
    for t, k in ts:
        if k > 0:
            hi += k * t.umax
        else:
            lo += k * t.umax
    return lo, hi


def _linadd(a, b, sgn):
    acc = dict(a.ts)
    for t, k in b.ts:
        k2 = acc.get(t, 0) + sgn * k
        if k2:
            acc[t] = k2
        else:
            acc.pop(t, None)
    c = a.c + sgn * b.c
    if not acc:
        return c
    ts = tuple(sorted(acc.items(), key=lambda e: e[0].i))
    if sgn > 0:
        lo, hi = a.lo + b.lo, a.hi + b.hi
    else:
        lo, hi = a.lo - b.hi, a.hi - b.lo
    l2, h2 = _bounds(c, ts)
    lo, hi = max(lo, l2), min(hi, h2)
    if lo == hi:
        return lo
    return SInt(c, ts, lo, hi)


def _splitdiv(x, d):
    """Write x = d*q + r with r free of multiples of d.  If 0<=r<d always,
    return (q, None); otherwise return (q, r)."""
    qs, rs = [], []
    for t, k in x.ts:
        q, r = divmod(k, d)
        if r == 0:
            qs.append((t, q))
        else:
            rs.append((t, k))
    qc, rc = divmod(x.c, d)
    if not qs and qc == 0:
        return 0, x
    rlo, rhi = _bounds(rc, rs)
    if rlo >= 0 and rhi < d:
        lo, hi = x.lo // d, x.hi // d
        l2, h2 = _bounds(qc, qs)
        return mkint(qc, tuple(qs), max(lo, l2), min(hi, h2)), None
    lo, hi = _bounds(rc, rs)
    l2, h2 = _bounds(qc, qs)
    return mkint(qc, tuple(qs), l2, h2), SInt(rc, tuple(rs), lo, hi)


def _splitmod(x, d):
    """x mod d when x = d*q + r with 0<=r<d."""
    rs = tuple((t, k) for t, k in x.ts if k % d)
    rc = x.c % d
    lo, hi = _bounds(rc, rs)
    return mkint(rc, rs, lo, hi)


def sbits(lo, hi):
    """Width of a two's complement representation of [lo, hi]."""
    n = 1
    if hi > 0:
        n = max(n, hi.bit_length() + 1)
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    return n


def mat(x, w):
    """The value modulo 2**w as a w-bit term."""
    if not _isinstance(x, SInt):
        return tm.const(_int(x), w)
    if _len(x.ts) == 1 and x.c == 0 and x.ts[0][1] == 1:
        return tm.zext(x.ts[0][0], w)
    t = tm.lin(w, [(k, t) for t, k in x.ts], x.c)
    if x.lo >= 0 and x.hi < (1 << w):
        s = tm.strip(t)
        if s not in _lin_of and s.k != 'c':
            _lin_of[s] = (x.c, x.ts, x.lo, x.hi)
    return t


def mat_checked(x, w):
    """mat() of a value the path has checked to be in 0 .. 2**w-1."""
    t = mat(x, w)
    if t.k != 'c':
        s = tm.strip(t)
        if s.k != 'c' and s not in _lin_of:
            _lin_of[s] = (x.c, x.ts, max(x.lo, 0), min(x.hi, (1 << w) - 1))
    return t


def mat_checked_signed(x, w):
    t = mat(x, w)
    if t.k != 'c' and t not in _slin_of:
        _slin_of[t] = (x.c, x.ts, max(x.lo, -(1 << (w - 1))), min(x.hi, (1 << (w - 1)) - 1))
    return t


def term(x):
    """Exact unsigned term of a nonnegative value, minimal width."""
    if not _isinstance(x, SInt):
        return tm.const(x, max(1, x.bit_length()))
    return mat(x, max(1, x.hi.bit_length()))


def from_term(t):
    """Unsigned term -> Python value."""
    t = tm.strip(t)
    if t.k == 'c':
        return t.a
    l = _lin_of.get(t)
    if l is not None:
        return SInt(*l)
    if t.k == 'lin':
        # If no wrap-around is possible the linear form is exact
        ts, c = t.a
        m = 1 << t.w
        ts2 = tuple((x, k) for k, x in ts)
        lo, hi = _bounds(c, ts2)
        if hi < m:
            return SInt(c, ts2, lo, min(hi, t.umax))
    if t.umax == 0:
        return 0
    return SInt(0, ((t, 1),), 0, t.umax)


def from_signed(t, lo=None, hi=None):
    """Two's complement term -> Python value."""
    w = t.w
    if t.k == 'c':
        return t.a - (1 << w) if t.a >> (w - 1) else t.a
    l = _slin_of.get(t)
    if l is not None:
        return SInt(*l)
    msb = tm.extract(t, w - 1, 1)
    if msb.k == 'c':
        if msb.a == 0:
            return from_term(t)
        x = from_term(tm.extract(t, 0, w - 1)) if w > 1 else 0
        return x - (1 << (w - 1))
    low = from_term(tm.extract(t, 0, w - 1)) if w > 1 else 0
    if t.k == 'cat':
        # low bits and sign bit are separate parts already
        # strip repeated sign bits
        top = t.a[-1]
        if top.k == 'rep':
            inner = tm.extract(t, 0, w - top.w + 1)
            if inner.w < w:
                return from_signed(inner, lo, hi)
    x = from_term(t)
    r = x - (from_term(msb) * (1 << w))
    if not _isinstance(r, SInt):
        return r
    l2, h2 = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if lo is not None:
        l2 = max(l2, lo)
    if hi is not None:
        h2 = min(h2, hi)
    return SInt(r.c, r.ts, max(r.lo, l2), min(r.hi, h2))


def _posneg(a, b):
    """Split a - b into positive and negative halves; returns
    (P terms, P const, N terms, N const) with a-b = P-N, all >= 0."""
    ac, ats = (a.c, a.ts) if _isinstance(a, SInt) else (_int(a), ())
    bc, bts = (b.c, b.ts) if _isinstance(b, SInt) else (_int(b), ())
    acc = dict(ats)
    for t, k in bts:
        acc[t] = acc.get(t, 0) - k
    p, n = [], []
    for t, k in acc.items():
        if k > 0:
            p.append((k, t))
        elif k < 0:
            n.append((-k, t))
    c = ac - bc
    return p, max(c, 0), n, max(-c, 0)


def _halves(a, b):
    p, pc, n, nc = _posneg(a, b)
    ph = pc + sum(k * t.umax for k, t in p)
    nh = nc + sum(k * t.umax for k, t in n)
    w = max(1, ph.bit_length(), nh.bit_length())
    return tm.lin(w, p, pc), tm.lin(w, n, nc), (pc, ph), (nc, nh)


def eqterm(a, b):
    if not _isinstance(a, SInt) and not _isinstance(b, SInt):
        return tm.TRUE if a == b else tm.FALSE
    alo, ahi = (a.lo, a.hi) if _isinstance(a, SInt) else (a, a)
    blo, bhi = (b.lo, b.hi) if _isinstance(b, SInt) else (b, b)
    if ahi < blo or bhi < alo:
        return tm.FALSE
    P, N, (pl, ph), (nl, nh) = _halves(a, b)
    if ph < nl or nh < pl:
        return tm.FALSE
    return tm.eq(P, N)


def ltterm(a, b):
    if not _isinstance(a, SInt) and not _isinstance(b, SInt):
        return tm.TRUE if a < b else tm.FALSE
    alo, ahi = (a.lo, a.hi) if _isinstance(a, SInt) else (a, a)
    blo, bhi = (b.lo, b.hi) if _isinstance(b, SInt) else (b, b)
    if ahi < blo:
        return tm.TRUE
    if alo >= bhi:
        return tm.FALSE
    P, N, (pl, ph), (nl, nh) = _halves(a, b)
    if ph < nl:
        return tm.TRUE
    if pl >= nh:
        return tm.FALSE
    return tm.ult(P, N)


def inrange(x, lo, hi):
    """Forking range test."""
    if not _isinstance(x, SInt):
        return lo <= x <= hi
    if x.lo >= lo and x.hi <= hi:
        return True
    cs = []
    if x.lo < lo:
        cs.append(tm.not_b(ltterm(x, lo)))
    if x.hi > hi:
        cs.append(tm.not_b(ltterm(hi, x)))
    return branch(tm.and_b(cs))


def ite(c, a, b):
    """Merge two integer-like values under condition term c."""
    if c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    if a is b:
        return a
    if _isinstance(a, (SBool, bool)) and _isinstance(b, (SBool, bool)):
        return mkbool(tm.ite(c, boolterm(a), boolterm(b)))
    if _isinstance(a, SBool):
        a = a.asint()
    if _isinstance(b, SBool):
        b = b.asint()
    alo, ahi = (a.lo, a.hi) if _isinstance(a, SInt) else (a, a)
    blo, bhi = (b.lo, b.hi) if _isinstance(b, SInt) else (b, b)
    if alo == ahi == blo == bhi:
        return _int(a)
    lo, hi = min(alo, blo), max(ahi, bhi)
    if lo >= 0:
        w = max(1, hi.bit_length())
        return from_term(tm.ite(c, mat(a, w), mat(b, w)))
    w = sbits(lo, hi)
    return from_signed(tm.ite(c, mat(a, w), mat(b, w)), lo, hi)


def isintlike(v):
    return _isinstance(v, (_int, SInt, SBool))


# ---------------------------------------------------------------------------
# Byte strings
#
# Elements are Python ints or 8-bit terms.  A byte string is either flat
# (`v` is bytes/bytearray or a list of elements) or a rope `r` of
# segments, some of which have symbolic length:
#   ('k', v)              known elements
#   ('z', name, off, n)   n bytes of the opaque blob `name` from off on
#   ('f', elem, n)        elem repeated n times

def norm(t):
    """8-bit term -> element."""
    return t.a if t.k == 'c' else t


def elem_to_value(e):
    return from_term(e) if _isinstance(e, T) else e


def value_to_elem(v):
    if _isinstance(v, T):
        return v
    if _isinstance(v, SBool):
        v = v.asint()
    if _isinstance(v, SInt):
        if not inrange(v, 0, 255):
            raise ValueError('bytes must be in range(0, 256)')
        return norm(mat(v, 8))
    v = v.__index__()
    if not 0 <= v <= 255:
        raise ValueError('byte must be in range(0, 256)')
    return v


def elem_eq(a, b):
    if _isinstance(a, T):
        return tm.eq(a, b if _isinstance(b, T) else tm.const(b, 8))
    if _isinstance(b, T):
        return tm.eq(b, tm.const(a, 8))
    return tm.TRUE if a == b else tm.FALSE


def _flatv(v):
    """Compact a list of elements to bytes when fully concrete."""
    if _isinstance(v, list):
        for e in v:
            if _isinstance(e, T):
                return v
        return _bytes(v)
    return v


def _catv(a, b):
    if _isinstance(a, list):
        return a + list(b)
    if _isinstance(b, list):
        return list(a) + b
    return _bytes(a) + _bytes(b)


# concrete projections of long byte strings, for searching
_PROJ = {}
FIND_FAST = 48


def mkrope(segs):
    out = []
    for s in segs:
        if s[0] == 'k':
            if _len(s[1]) == 0:
                continue
            if out and out[-1][0] == 'k':
                out[-1] = ('k', _catv(out[-1][1], s[1]))
                continue
            out.append(s)
        elif s[0] == 'z':
            _, name, off, n = s
            if not _isinstance(n, SInt) and n == 0:
                continue
            if out and out[-1][0] == 'z' and out[-1][1] == name:
                _, _, o2, n2 = out[-1]
                if eqterm(o2 + n2, off) is tm.TRUE:
                    out[-1] = ('z', name, o2, n2 + n)
                    continue
            out.append(s)
        else:
            _, e, n = s
            if not _isinstance(n, SInt):
                if n == 0:
                    continue
                v = [e] * n if _isinstance(e, T) else _bytes([e]) * n
                if out and out[-1][0] == 'k':
                    out[-1] = ('k', _catv(out[-1][1], v))
                else:
                    out.append(('k', v))
                continue
            if out and out[-1][0] == 'f' and out[-1][1] is e:
                out[-1] = ('f', e, out[-1][2] + n)
                continue
            out.append(s)
    return out


def seglen(s):
    if s[0] == 'k':
        return _len(s[1])
    return s[-1]


def isbyteslike(o):
    return _isinstance(o, (SBytes, _bytes, _bytearray, memoryview))


def segs_of(o):
    if _isinstance(o, SBytes):
        if o.r is not None:
            return list(o.r)
        v = o.v
        if o.mutable:
            v = list(v) if _isinstance(v, list) else _bytes(v)
        return [('k', v)] if _len(v) else []
    if _isinstance(o, (_bytes, _bytearray, memoryview)):
        o = _bytes(o)
        return [('k', o)] if o else []
    return [('k', _flatv([value_to_elem(x) for x in o]))]


class SBytes:
    """Symbolic bytes (immutable)."""
    __slots__ = ('v', 'r')
    __module__ = 'symx'
    mutable = False

    def __init__(self, v=b'', r=None):
        # v: bytes or list of elements; not copied by callers afterwards
        self.v = v
        self.r = r

    @classmethod
    def _of(cls, segs):
        segs = mkrope(segs)
        if not segs:
            return cls._flat(b'')
        if _len(segs) == 1 and segs[0][0] == 'k':
            return cls._flat(segs[0][1])
        return cls(None, segs)

    @classmethod
    def _flat(cls, v):
        if cls.mutable and not _isinstance(v, list):
            v = _bytearray(v)
        elif cls.mutable:
            v = list(v)
        return cls(v)

    # -- length

    def slen(self):
        if self.r is None:
            return _len(self.v)
        n = 0
        for s in self.r:
            n = seglen(s) + n
        return n

    def __len__(self):
        n = self.slen()
        if _isinstance(n, SInt):
            n = CUR.concretize(n)
        return n

    def __bool__(self):
        return bool(self.slen() != 0)

    # -- flattening

    def flat(self):
        """Elements, forking over lengths if there are symbolic ones."""
        if self.r is None:
            return self.v
        out = []
        segs = []
        for s in self.r:
            if s[0] == 'k':
                out.extend(s[1])
                segs.append(s)
                continue
            n = s[-1]
            if _isinstance(n, SInt):
                n = CUR.concretize(n)
            if s[0] == 'f':
                v = [s[1]] * n
            else:
                v = [CUR.blobbyte(s[1], s[2] + i) for i in range(n)]
            out.extend(v)
        v = _flatv(out)
        if self.mutable:
            self.r = None
            self.v = _bytearray(v) if not _isinstance(v, list) else v
            return self.v
        return v

    def isconcrete(self):
        if self.r is not None:
            return False
        if _isinstance(self.v, list):
            v = _flatv(self.v)
            if _isinstance(v, list):
                return False
            if not self.mutable:
                self.v = v
        return True

    def concrete(self):
        """Real bytes; forks over symbolic contents."""
        return concretize_bytes(self)

    def __bytes__(self):
        return concretize_bytes(self)

    def __buffer__(self, flags):
        CUR.note('bytes contents concretised at a C boundary')
        return memoryview(concretize_bytes(self))

    # -- access

    def _locate(self, p):
        """Segment containing position p (0 <= p < len)."""
        s = 0
        for i, seg in enumerate(self.r):
            e = seglen(seg) + s
            if i == _len(self.r) - 1 or branch(ltterm(p, e)):
                return i, p - s
            s = e
        raise IndexError('index out of range')

    def _getelem(self, i):
        if self.r is None:
            n = _len(self.v)
            if _isinstance(i, SInt):
                if not inrange(i, -n, n - 1):
                    raise IndexError('index out of range')
                if i.lo < 0:
                    i = i + n if branch(ltterm(i, 0)) else i
                if _isinstance(i, SInt):
                    return self._symindex(self.v, i)
            i = i.__index__()
            return self.v[i]
        n = self.slen()
        if _isinstance(i, SBool):
            i = i.asint()
        lo = i.lo if _isinstance(i, SInt) else i
        if lo < 0 and branch(ltterm(i, 0)):
            i = i + n
        if branch(tm.or_b([ltterm(i, 0), tm.not_b(ltterm(i, n))])):
            raise IndexError('index out of range')
        k, p = self._locate(i)
        seg = self.r[k]
        if seg[0] == 'f':
            return seg[1]
        if seg[0] == 'z':
            return CUR.blobbyte(seg[1], seg[2] + p)
        if _isinstance(p, SInt):
            return self._symindex(seg[1], p)
        return seg[1][p]

    def _symindex(self, v, i):
        """v[i] for symbolic 0 <= i < len(v)."""
        n = _len(v)
        hi = min(n - 1, i.hi)
        lo = max(0, i.lo)
        w = max(1, hi.bit_length())
        t = mat(i, w)
        if not _isinstance(v, list):
            return norm(tm.tab(tuple(v[:hi + 1]), 8, t))
        if hi - lo < 64:
            r = v[lo]
            r = r if _isinstance(r, T) else tm.const(r, 8)
            for j in range(lo + 1, hi + 1):
                e = v[j]
                e = e if _isinstance(e, T) else tm.const(e, 8)
                r = tm.ite(tm.eq(t, tm.const(j, w)), e, r)
            return norm(r)
        return v[CUR.concretize(i)]

    def _slicebounds(self, s):
        n = self.slen()

        def clamp(x, default):
            if x is None:
                return default
            if _isinstance(x, SBool):
                x = x.asint()
            if not _isinstance(x, SInt):
                x = x.__index__()
            lo = x.lo if _isinstance(x, SInt) else x
            if lo < 0 and branch(ltterm(x, 0)):
                x = x + n
                if branch(ltterm(x, 0)):
                    return 0
                return x
            if branch(ltterm(n, x)):
                return n
            return x
        a = clamp(s.start, 0)
        b = clamp(s.stop, n)
        return a, b

    def _split(self, segs, p):
        """Split a segment list at position p (0 <= p <= len)."""
        if not _isinstance(p, SInt) and p == 0:
            return [], segs
        s = 0
        for i, seg in enumerate(segs):
            L = seglen(seg)
            e = L + s
            if branch(eqterm(p, e)):
                return segs[:i + 1], segs[i + 1:]
            if branch(ltterm(p, e)):
                q = p - s
                if seg[0] == 'k':
                    if _isinstance(q, SInt):
                        q = CUR.concretize(q)
                    a, b = ('k', seg[1][:q]), ('k', seg[1][q:])
                elif seg[0] == 'z':
                    a = ('z', seg[1], seg[2], q)
                    b = ('z', seg[1], seg[2] + q, L - q)
                else:
                    a = ('f', seg[1], q)
                    b = ('f', seg[1], L - q)
                return segs[:i] + [a], [b] + segs[i + 1:]
            s = e
        return segs, []

    def __getitem__(self, i):
        cls = type(self)
        if _isinstance(i, slice):
            if i.step is not None and not (_isinstance(i.step, _int) and i.step == 1):
                step = i.step if not _isinstance(i.step, SInt) else CUR.concretize(i.step)
                v = self.flat()
                return cls._flat(v[slice(cint(i.start), cint(i.stop), step)])
            if self.r is None and not _isinstance(i.start, (SInt, SBool)) \
                    and not _isinstance(i.stop, (SInt, SBool)):
                return cls._flat(self.v[i])
            a, b = self._slicebounds(i)
            if branch(tm.not_b(ltterm(a, b))):
                return cls._flat(b'')
            if self.r is None and not _isinstance(a, SInt) and not _isinstance(b, SInt):
                return cls._flat(self.v[a:b])
            if self.r is None:
                # symbolic bounds into flat data
                if _isinstance(a, SInt):
                    a = CUR.concretize(a)
                if _isinstance(b, SInt):
                    b = CUR.concretize(b)
                return cls._flat(self.v[a:b])
            segs = segs_of(self)
            _, rest = self._split(segs, a)
            mid, _ = self._split(rest, b - a)
            return cls._of(mid)
        return elem_to_value(self._getelem(i))

    def __iter__(self):
        if self.r is None:
            if self.mutable:
                i = 0
                while i < _len(self.v):
                    yield elem_to_value(self.v[i])
                    i += 1
            else:
                for e in self.v:
                    yield elem_to_value(e)
            return
        i = 0
        while branch(ltterm(i, self.slen())):
            yield elem_to_value(self._getelem(i))
            i += 1

    def __reversed__(self):
        v = self.flat()
        for e in reversed(v):
            yield elem_to_value(e)

    def __contains__(self, o):
        return bool(self.scontains(o))

    def scontains(self, o):
        if isbyteslike(o):
            return self.find(o) != -1
        e = value_to_elem(o)
        if self.r is not None:
            v = self.flat()
        else:
            v = self.v
        return mkbool(tm.or_b([elem_eq(x, e) for x in v]))

    # -- comparison

    def eqterm(self, o):
        return bytes_eq(self, o)

    def __eq__(self, o):
        if not isbyteslike(o):
            return NotImplemented
        return mkbool(bytes_eq(self, o))

    def __ne__(self, o):
        if not isbyteslike(o):
            return NotImplemented
        return mkbool(tm.not_b(bytes_eq(self, o)))

    def __hash__(self):
        if self.mutable:
            raise TypeError("unhashable type: 'bytearray'")
        return 0x5B

    def _cmp(self, o):
        a, b = self.flat(), as_sbytes(o).flat()
        for x, y in zip(a, b):
            if not branch(elem_eq(x, y)):
                return -1 if branch(ltterm(elem_to_value(x), elem_to_value(y))) else 1
        return (_len(a) > _len(b)) - (_len(a) < _len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0 if isbyteslike(o) else NotImplemented

    def __le__(self, o):
        return self._cmp(o) <= 0 if isbyteslike(o) else NotImplemented

    def __gt__(self, o):
        return self._cmp(o) > 0 if isbyteslike(o) else NotImplemented

    def __ge__(self, o):
        return self._cmp(o) >= 0 if isbyteslike(o) else NotImplemented

    # -- building

    def __add__(self, o):
        if not isbyteslike(o):
            return NotImplemented
        return type(self)._of(segs_of(self) + segs_of(o))

    def __radd__(self, o):
        if not isbyteslike(o):
            return NotImplemented
        return type(self)._of(segs_of(o) + segs_of(self))

    def __mul__(self, n):
        if _isinstance(n, SBool):
            n = n.asint()
        if _isinstance(n, SInt):
            if n.lo < 0:
                if branch(ltterm(n, 0)):
                    return type(self)._flat(b'')
            if self.r is None and _len(self.v) == 1:
                return type(self)._of([('f', self.v[0], n)])
            if self.r is None and _len(self.v) == 0:
                return type(self)._flat(b'')
            if self.r is None and _len(set(x if not _isinstance(x, T) else x for x in self.v)) == 1:
                return type(self)._of([('f', self.v[0], n * _len(self.v))])
            n = CUR.concretize(n)
        n = n.__index__()
        if self.r is None:
            return type(self)._flat(self.v * n)
        return type(self)._of(segs_of(self) * n)

    __rmul__ = __mul__

    def __mod__(self, o):
        return SBytes(concretize_bytes(self) % o)

    def join(self, items):
        segs = []
        for i, x in enumerate(items):
            if i:
                segs.extend(segs_of(self))
            if not isbyteslike(x):
                raise TypeError('sequence item: expected a bytes-like object')
            segs.extend(segs_of(x))
        return type(self)._of(segs)

    # -- searching

    def _findrange(self, start, end):
        n = self.slen()
        if self.r is not None or _isinstance(n, SInt):
            self_v = self.flat()
            n = _len(self_v)
        s = cint(start) if start is not None else 0
        e = cint(end) if end is not None else n
        if s < 0:
            s = max(0, s + n)
        if e < 0:
            e = max(0, e + n)
        e = min(e, n)
        return s, e

    def _find(self, sub, start=None, end=None, reverse=False):
        if isintlike(sub):
            sub = SBytes([value_to_elem(sub)])
        sub = as_sbytes(sub)
        if self.r is not None and not reverse and not _isinstance(start, SInt):
            r = self._ropefind(sub, start, end)
            if r is not None:
                return r
        s, e = self._findrange(start, end)
        v = self.flat()
        p = sub.flat()
        m = _len(p)
        if not _isinstance(v, list) and not _isinstance(p, list):
            b = _bytes(v)
            q = _bytes(p)
            return b.rfind(q, s, e) if reverse else b.find(q, s, e)
        if s > _len(v):
            return -1
        if e - s < m:
            return -1
        if m == 0:
            return (e if reverse else s) if s <= e else -1
        if e - s > FIND_FAST and not self.mutable and self.r is None:
            rng = self._candidates(v, p, s, e, reverse)
        else:
            rng = range(e - m, s - 1, -1) if reverse else range(s, e - m + 1)
        for i in rng:
            cs = []
            for j in range(m):
                x, y = v[i + j], p[j]
                if x is y:
                    continue
                if _isinstance(x, T) or _isinstance(y, T):
                    c = elem_eq(x, y)
                    if c is tm.FALSE:
                        break
                    cs.append(c)
                elif x != y:
                    break
            else:
                if branch(tm.and_b(cs)):
                    return i
        return -1

    def _candidates(self, v, p, s, e, reverse):
        """Positions in v[s:e] where p might be found."""
        m = _len(p)
        best = (0, 0)
        j = 0
        while j < m:
            if _isinstance(p[j], T):
                j += 1
                continue
            k = j
            while k < m and not _isinstance(p[k], T):
                k += 1
            if k - j > best[1] - best[0]:
                best = (j, k)
            j = k
        j0, j1 = best
        if j0 == j1:
            yield from (range(e - m, s - 1, -1) if reverse else range(s, e - m + 1))
            return
        key = id(self.v)
        pr = _PROJ.get(key)
        if pr is None or pr[0] is not self.v:
            if _len(_PROJ) > 64:
                _PROJ.clear()
            sp = [i for i, x in enumerate(v) if _isinstance(x, T)]
            pr = (self.v, _bytes(0 if _isinstance(x, T) else x for x in v), sp)
            _PROJ[key] = pr
        conc, sympos = pr[1], pr[2]
        run = _bytes(p[j0:j1])
        wild = set()
        for k in sympos[bisect.bisect_left(sympos, s):bisect.bisect_left(sympos, e)]:
            for i in range(k - j1 + 1, k - j0 + 1):
                if s <= i <= e - m:
                    wild.add(i)
        wild = sorted(wild, reverse=reverse)
        w = 0
        if reverse:
            hi = e - m
            while True:
                i = conc.rfind(run, s + j0, hi + j1)
                i = i - j0 if i != -1 else None
                while w < _len(wild) and (i is None or wild[w] >= i):
                    if wild[w] != i:
                        yield wild[w]
                    w += 1
                if i is None:
                    return
                yield i
                hi = i - 1
                if hi < s:
                    while w < _len(wild):
                        yield wild[w]
                        w += 1
                    return
        lo = s
        while True:
            i = conc.find(run, lo + j0, e - m + j1)
            i = i - j0 if i != -1 else None
            while w < _len(wild) and (i is None or wild[w] <= i):
                if wild[w] != i:
                    yield wild[w]
                w += 1
            if i is None:
                return
            yield i
            lo = i + 1

    def _ropefind(self, sub, start, end):
        """Find in a rope without flattening, when the match is found (or
        excluded) inside the leading known segment."""
        if end is not None or sub.r is not None:
            return None
        if not self.r or self.r[0][0] != 'k':
            return None
        head = SBytes(self.r[0][1])
        n = _len(self.r[0][1])
        m = _len(sub.v)
        s = 0 if start is None else start
        if s < 0 or s > n or m == 0:
            return None
        i = head._find(sub, s)
        return i if i != -1 else None

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = self._find(sub, start, end)
        if r == -1:
            raise ValueError('subsection not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self._find(sub, start, end, True)
        if r == -1:
            raise ValueError('subsection not found')
        return r

    def count(self, sub, start=None, end=None):
        if isintlike(sub):
            sub = SBytes([value_to_elem(sub)])
        m = _len(as_sbytes(sub).flat())
        s, e = self._findrange(start, end)
        n = 0
        if m == 0:
            return max(0, e - s + 1)
        while True:
            i = self._find(sub, s, e)
            if i == -1:
                return n
            n += 1
            s = i + m

    def startswith(self, p, start=None, end=None):
        if _isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        x = self if start is None and end is None else self[start:end]
        p = as_sbytes(p)
        return (x[:p.slen()] == p) if bool(x.slen() >= p.slen()) else False

    def endswith(self, p, start=None, end=None):
        if _isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        x = self if start is None and end is None else self[start:end]
        p = as_sbytes(p)
        n = x.slen()
        return (x[n - p.slen():] == p) if bool(n >= p.slen()) else False

    def removeprefix(self, p):
        return self[as_sbytes(p).slen():] if self.startswith(p) else self[:]

    def removesuffix(self, p):
        p = as_sbytes(p)
        return self[:self.slen() - p.slen()] if p.slen() and self.endswith(p) else self[:]

    def _strip(self, chars, left, right):
        chars = list(as_sbytes(chars).flat()) if chars is not None else list(b' \t\n\r\x0b\f')
        v = self.flat()
        a, b = 0, _len(v)

        def isin(e):
            return branch(tm.or_b([elem_eq(e, c) for c in chars]))
        if left:
            while a < b and isin(v[a]):
                a += 1
        if right:
            while b > a and isin(v[b - 1]):
                b -= 1
        return type(self)._flat(v[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def ljust(self, width, fill=b' '):
        n = self.slen()
        if bool(n >= width):
            return self[:]
        return type(self)._of(segs_of(self) + segs_of(as_sbytes(fill) * (width - n)))

    def rjust(self, width, fill=b' '):
        n = self.slen()
        if bool(n >= width):
            return self[:]
        return type(self)._of(segs_of(as_sbytes(fill) * (width - n)) + segs_of(self))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [type(self)._flat(x) for x in concretize_bytes(self).split(None, maxsplit)]
        m = as_sbytes(sep).slen()
        out = []
        pos = 0
        while maxsplit:
            i = self.find(sep, pos)
            if i == -1:
                break
            out.append(self[pos:i])
            pos = i + m
            maxsplit -= 1
        out.append(self[pos:])
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i == -1:
            return self[:], type(self)._flat(b''), type(self)._flat(b'')
        m = as_sbytes(sep).slen()
        return self[:i], self[i:i + m], self[i + m:]

    def replace(self, old, new, count=-1):
        old, new = as_sbytes(old), as_sbytes(new)
        m = old.slen()
        if m == 0:
            return type(self)._flat(concretize_bytes(self).replace(b'', concretize_bytes(new), count))
        out = []
        pos = 0
        while count:
            i = self.find(old, pos)
            if i == -1:
                break
            out.extend(segs_of(self[pos:i]))
            out.extend(segs_of(new))
            pos = i + m
            count -= 1
        out.extend(segs_of(self[pos:]))
        return type(self)._of(out)

    def decode(self, encoding='utf-8', errors='strict'):
        return decode_bytes(self, encoding, errors)

    def hex(self, *a):
        return concretize_bytes(self).hex(*a)

    def tobytes(self):
        return SBytes._of(segs_of(self))

    def tolist(self):
        return list(self)

    def copy(self):
        return type(self)._of(segs_of(self))

    def __copy__(self):
        return self.copy() if self.mutable else self

    def __deepcopy__(self, memo):
        return self.copy() if self.mutable else self

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, spec):
        return marker(self)

    def __getattr__(self, name):
        # Anything not modelled: fall back to the real method on concrete
        # contents (forking over their values).
        if name.startswith('__') or not hasattr(_bytes, name):
            raise AttributeError(name)
        CUR.note(f'bytes.{name} evaluated on concretised contents')

        def f(*args, **kw):
            args = [concretize_bytes(a) if _isinstance(a, SBytes) else a for a in args]
            r = getattr(concretize_bytes(self), name)(*args, **kw)
            return wrap_real(r, type(self))
        return f


class SByteArray(SBytes):
    __slots__ = ()
    __module__ = 'symx'
    mutable = True

    __hash__ = None

    def _tolist(self):
        if not _isinstance(self.v, list):
            self.v = list(self.v)

    def append(self, x):
        e = value_to_elem(x)
        if self.r is not None:
            self.r = mkrope(self.r + [('k', [e] if _isinstance(e, T) else _bytes([e]))])
            return
        if _isinstance(e, T):
            self._tolist()
        self.v.append(e)

    def extend(self, o):
        if isbyteslike(o):
            if self.r is None and not (_isinstance(o, SBytes) and o.r is not None):
                ov = o.v if _isinstance(o, SBytes) else _bytes(o)
                if _isinstance(ov, list) and not _isinstance(self.v, list):
                    self._tolist()
                self.v.extend(list(ov) if ov is self.v else ov)
                return
            self._assign(segs_of(self) + segs_of(o))
            return
        for x in o:
            self.append(x)

    def _assign(self, segs):
        x = SByteArray._of(segs)
        self.v, self.r = x.v, x.r

    def __iadd__(self, o):
        if not isbyteslike(o):
            raise TypeError("can't concat to bytearray")
        if o is self and self:
            raise BufferError('Existing exports of data: object cannot be re-sized')
        self.extend(o)
        return self

    def __imul__(self, n):
        x = self * n
        self.v, self.r = x.v, x.r
        return self

    def __setitem__(self, i, val):
        if _isinstance(i, slice):
            if i.step is not None and not (_isinstance(i.step, _int) and i.step == 1):
                v = list(self.flat())
                src = [value_to_elem(x) for x in val]
                v[slice(cint(i.start), cint(i.stop), cint(i.step))] = src
                self.r = None
                self.v = v
                return
            if not isbyteslike(val):
                val = SBytes(_flatv([value_to_elem(x) for x in val]))
            if self.r is None and not _isinstance(i.start, (SInt, SBool)) \
                    and not _isinstance(i.stop, (SInt, SBool)) \
                    and not (_isinstance(val, SBytes) and val.r is not None):
                vv = val.v if _isinstance(val, SBytes) else _bytes(val)
                if _isinstance(vv, list) and not _isinstance(self.v, list):
                    self._tolist()
                self.v[i] = list(vv) if vv is self.v else vv
                return
            a, b = self._slicebounds(i)
            if branch(ltterm(b, a)):
                b = a
            segs = segs_of(self)
            head, rest = self._split(segs, a)
            _, tail = self._split(rest, b - a)
            self._assign(head + segs_of(val) + tail)
            return
        e = value_to_elem(val)
        if self.r is None:
            n = _len(self.v)
            if _isinstance(i, SInt):
                if not inrange(i, -n, n - 1):
                    raise IndexError('bytearray index out of range')
                i = CUR.concretize(i)
            i = i.__index__()
            if _isinstance(e, T):
                self._tolist()
            self.v[i] = e
            return
        n = self.slen()
        if branch(ltterm(i, 0)):
            i = i + n
        if branch(tm.or_b([ltterm(i, 0), tm.not_b(ltterm(i, n))])):
            raise IndexError('bytearray index out of range')
        self[i:i + 1] = SBytes([e])

    def __delitem__(self, i):
        if _isinstance(i, slice):
            if i.step is not None and i.step != 1:
                v = self.flat()
                del v[slice(cint(i.start), cint(i.stop), cint(i.step))]
                return
            self[i] = SBytes(b'')
            return
        n = self.slen()
        if branch(ltterm(i, 0)):
            i = i + n
        if branch(tm.or_b([ltterm(i, 0), tm.not_b(ltterm(i, n))])):
            raise IndexError('bytearray index out of range')
        self[i:i + 1] = SBytes(b'')

    def insert(self, i, x):
        e = value_to_elem(x)
        v = self.flat()
        if _isinstance(e, T):
            self._tolist()
            v = self.v
        v.insert(cint(i), e)

    def pop(self, i=-1):
        v = self.flat()
        if not _len(v):
            raise IndexError('pop from empty bytearray')
        return elem_to_value(v.pop(cint(i)))

    def remove(self, x):
        i = self.find(x)
        if i == -1:
            raise ValueError('value not found in bytearray')
        del self[i]

    def reverse(self):
        self.flat().reverse()

    def clear(self):
        self.v, self.r = _bytearray(), None


def cint(x):
    """Concrete integer (or None), forking if symbolic."""
    if _isinstance(x, SBool):
        x = x.asint()
    if _isinstance(x, SInt):
        return CUR.concretize(x)
    return x if x is None else x.__index__()


def as_sbytes(o):
    if _isinstance(o, SBytes):
        return o
    if _isinstance(o, (_bytes, _bytearray, memoryview)):
        return SBytes(_bytes(o))
    raise TypeError(f"a bytes-like object is required, not '{type(o).__name__}'")


def wrap_real(r, cls=SBytes):
    if _isinstance(r, (_bytes, _bytearray)):
        return cls._flat(_bytes(r))
    if _isinstance(r, (list, tuple)):
        return type(r)(wrap_real(x, cls) for x in r)
    return r


def concretize_bytes(b):
    if _isinstance(b, (_bytes, _bytearray)):
        return _bytes(b)
    v = b.flat()
    if not _isinstance(v, list):
        return _bytes(v)
    out = _bytearray()
    for e in v:
        if _isinstance(e, T):
            x = from_term(e)
            if _isinstance(x, SInt):
                x = CUR.concretize(x)
            out.append(x)
        else:
            out.append(e)
    return _bytes(out)


def bytes_eq(a, b):
    """Equality as a term.  May fork on how segment boundaries line up."""
    a, b = as_sbytes(a), as_sbytes(b)
    if a.r is None and b.r is None:
        x, y = a.v, b.v
        if _len(x) != _len(y):
            return tm.FALSE
        if not _isinstance(x, list) and not _isinstance(y, list):
            return tm.TRUE if _bytes(x) == _bytes(y) else tm.FALSE
        cs = []
        for p, q in zip(x, y):
            if p is q:
                continue
            c = elem_eq(p, q)
            if c is tm.FALSE:
                return tm.FALSE
            if c is not tm.TRUE:
                cs.append(c)
        return tm.and_b(cs)
    if not branch(eqterm(a.slen(), b.slen())):
        return tm.FALSE
    x, y = segs_of(a), segs_of(b)
    x.reverse()
    y.reverse()
    cs = []
    while x and y:
        p, q = x.pop(), y.pop()
        n, m = seglen(p), seglen(q)
        if branch(eqterm(n, m)):
            pass
        elif branch(ltterm(n, m)):
            h, t = a._split([q], n)
            q = h[0] if h else ('k', b'')
            y.extend(reversed(t))
        else:
            h, t = a._split([p], m)
            p = h[0] if h else ('k', b'')
            x.extend(reversed(t))
            n = m
        c = _seg_eq(p, q, n)
        if c is tm.FALSE:
            return tm.FALSE
        cs.append(c)
    for rest in x + y:
        cs.append(eqterm(seglen(rest), 0))
    return tm.and_b(cs)


def _seg_eq(p, q, n):
    z = eqterm(n, 0)
    if z is tm.TRUE:
        return z
    if p[0] == 'k' and q[0] == 'k':
        return bytes_eq(SBytes(p[1]), SBytes(q[1]))
    if p[0] == 'z' and q[0] == 'z' and p[1] == q[1]:
        return tm.or_b([z, eqterm(p[2], q[2])])
    if p[0] == 'f' and q[0] == 'f':
        return tm.or_b([z, elem_eq(p[1], q[1])])
    if q[0] == 'k':
        p, q = q, p
    if p[0] == 'k':
        if q[0] == 'f':
            return tm.and_b([elem_eq(e, q[1]) for e in p[1]])
        return tm.and_b([elem_eq(e, CUR.blobbyte(q[1], q[2] + i))
                         for i, e in enumerate(p[1])])
    # different blobs, or a blob against a fill: blob contents are generic,
    # so these are equal only when empty
    return z


# ---------------------------------------------------------------------------
# Strings

class SStr:
    """A string of concrete length; characters are ints or terms."""
    __slots__ = ('v',)
    __module__ = 'symx'

    def __init__(self, v):
        self.v = v

    @staticmethod
    def of(chars):
        for c in chars:
            if _isinstance(c, T):
                return SStr(list(chars))
        return ''.join(chr(c) for c in chars)

    def slen(self):
        return _len(self.v)

    def __len__(self):
        return _len(self.v)

    def __bool__(self):
        return bool(self.v)

    def concretize(self):
        return ''.join(chr(c if not _isinstance(c, T) else cint(from_term(c)))
                       for c in self.v)

    def __getitem__(self, i):
        if _isinstance(i, slice):
            return SStr.of(self.v[slice(cint(i.start), cint(i.stop), cint(i.step))])
        return SStr.of([self.v[cint(i)]])

    def __iter__(self):
        for c in self.v:
            yield SStr.of([c])

    def __add__(self, o):
        if not isstrlike(o):
            return NotImplemented
        return SStr.of(self.v + chars(o))

    def __radd__(self, o):
        if not isstrlike(o):
            return NotImplemented
        return SStr.of(chars(o) + self.v)

    def __mul__(self, n):
        return SStr.of(self.v * cint(n))
    __rmul__ = __mul__

    def eqterm(self, o):
        b = chars(o)
        if _len(b) != _len(self.v):
            return tm.FALSE
        return tm.and_b([char_eq(x, y) for x, y in zip(self.v, b)])

    def __eq__(self, o):
        if not isstrlike(o):
            return NotImplemented
        return mkbool(self.eqterm(o))

    def __ne__(self, o):
        if not isstrlike(o):
            return NotImplemented
        return mkbool(tm.not_b(self.eqterm(o)))

    def _cmp(self, o):
        a, b = self.v, chars(o)
        for x, y in zip(a, b):
            if not branch(char_eq(x, y)):
                return -1 if branch(ltterm(elem_to_value(x), elem_to_value(y))) else 1
        return (_len(a) > _len(b)) - (_len(a) < _len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0 if isstrlike(o) else NotImplemented

    def __le__(self, o):
        return self._cmp(o) <= 0 if isstrlike(o) else NotImplemented

    def __gt__(self, o):
        return self._cmp(o) > 0 if isstrlike(o) else NotImplemented

    def __ge__(self, o):
        return self._cmp(o) >= 0 if isstrlike(o) else NotImplemented

    def __hash__(self):
        return hash(self.concretize())

    def __contains__(self, o):
        return bool(self.find(o) != -1)

    def find(self, sub, start=None, end=None):
        p = chars(sub)
        v = self.v
        s, e, _ = slice(cint(start), cint(end)).indices(_len(v))
        for i in range(s, e - _len(p) + 1):
            if branch(tm.and_b([char_eq(x, y) for x, y in zip(v[i:i + _len(p)], p)])):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        p = chars(sub)
        v = self.v
        s, e, _ = slice(cint(start), cint(end)).indices(_len(v))
        for i in range(e - _len(p), s - 1, -1):
            if branch(tm.and_b([char_eq(x, y) for x, y in zip(v[i:i + _len(p)], p)])):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def count(self, sub):
        n = pos = 0
        while True:
            i = self.find(sub, pos)
            if i == -1:
                return n
            n += 1
            pos = i + max(1, _len(chars(sub)))

    def startswith(self, p, *a):
        if _isinstance(p, tuple):
            return any(self.startswith(x, *a) for x in p)
        x = self if not a else self[slice(*a)]
        q = chars(p)
        return _len(chars(x)) >= _len(q) and bool(x[:_len(q)] == p)

    def endswith(self, p):
        if _isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        n = _len(chars(p))
        return _len(self.v) >= n and bool(self[_len(self.v) - n:] == p)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concretize().split(sep, maxsplit)
        out = []
        pos = 0
        n = _len(chars(sep))
        while maxsplit:
            i = self.find(sep, pos)
            if i == -1:
                break
            out.append(self[pos:i])
            pos = i + n
            maxsplit -= 1
        out.append(self[pos:])
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concretize().rsplit(sep, maxsplit)
        out = []
        end = _len(self.v)
        n = _len(chars(sep))
        while maxsplit:
            i = self.rfind(sep, 0, end)
            if i == -1:
                break
            out.append(self[i + n:end])
            end = i
            maxsplit -= 1
        out.append(self[:end])
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i == -1:
            return self, '', ''
        return self[:i], sep, self[i + _len(chars(sep)):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i == -1:
            return '', '', self
        return self[:i], sep, self[i + _len(chars(sep)):]

    def _strip(self, cs, left, right):
        cs = chars(cs) if cs is not None else [ord(c) for c in ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0']
        v = self.v
        a, b = 0, _len(v)

        def isin(e):
            return branch(tm.or_b([char_eq(e, c) for c in cs]))
        if left:
            while a < b and isin(v[a]):
                a += 1
        if right:
            while b > a and isin(v[b - 1]):
                b -= 1
        return SStr.of(v[a:b])

    def strip(self, cs=None):
        return self._strip(cs, True, True)

    def lstrip(self, cs=None):
        return self._strip(cs, True, False)

    def rstrip(self, cs=None):
        return self._strip(cs, False, True)

    def replace(self, old, new, count=-1):
        out = []
        pos = 0
        n = _len(chars(old))
        if n == 0:
            return self.concretize().replace(old, new, count)
        while count:
            i = self.find(old, pos)
            if i == -1:
                break
            out += self.v[pos:i] + chars(new)
            pos = i + n
            count -= 1
        return SStr.of(out + self.v[pos:])

    def ljust(self, n, fill=' '):
        return self + fill * max(0, n - _len(self.v))

    def rjust(self, n, fill=' '):
        return fill * max(0, n - _len(self.v)) + self

    def join(self, items):
        return strjoin(self, items)

    def encode(self, encoding='utf-8', errors='strict'):
        return encode_str(self, encoding, errors)

    def __repr__(self):
        return marker(self)

    __str__ = __repr__

    def __format__(self, spec):
        return marker(self)

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(name)
        CUR.note(f'str.{name} evaluated on concretised contents')

        def f(*args, **kw):
            args = [a.concretize() if _isinstance(a, SStr) else a for a in args]
            return getattr(self.concretize(), name)(*args, **kw)
        return f


def isstrlike(o):
    return _isinstance(o, (str, SStr))


def chars(o):
    if _isinstance(o, SStr):
        return o.v
    return [ord(c) for c in o]


def char_eq(a, b):
    if _isinstance(a, T):
        if _isinstance(b, T):
            return tm.eq(a, b)
        if b > a.umax:
            return tm.FALSE
        return tm.eq(a, tm.const(b, a.w))
    if _isinstance(b, T):
        return char_eq(b, a)
    return tm.TRUE if a == b else tm.FALSE


def strjoin(sep, items):
    out = []
    items = list(items)
    for i, x in enumerate(items):
        if not isstrlike(x):
            raise TypeError('sequence item: expected str instance')
        if i:
            out += chars(sep)
        out += chars(x)
    return SStr.of(out)


def _wide(c, w):
    return tm.zext(c, w) if _isinstance(c, T) else tm.const(c, w)


def _enc_error(encoding):
    return UnicodeEncodeError(encoding, '?', 0, 1, 'symbolic character not encodable')


def _dec_error(encoding):
    return UnicodeDecodeError(encoding, b'?', 0, 1, 'symbolic byte not decodable')


def _cp_tables(name):
    """decode table (256 entries, -1 for undefined) of a single-byte codec"""
    t = _cp_cache.get(name)
    if t is None:
        dec = []
        for b in range(256):
            try:
                dec.append(ord(_bytes([b]).decode(name)))
            except UnicodeDecodeError:
                dec.append(-1)
        t = _cp_cache[name] = dec
    return t


_cp_cache = {}
_SINGLE = {'cp1252', 'iso8859-1', 'ascii', 'latin-1', 'cp437', 'iso8859-15'}


def encode_str(s, encoding, errors='strict'):
    name = codecs.lookup(encoding).name
    out = []
    if errors != 'strict':
        return SBytes(s.concretize().encode(encoding, errors))
    if name == 'utf-16':
        # native order with BOM
        out += b'\xff\xfe'
        name = 'utf-16-le'
    for c in s.v:
        if not _isinstance(c, T):
            out.extend(chr(c).encode(name))
            continue
        x = from_term(c)
        if not _isinstance(x, SInt):
            out.extend(chr(x).encode(name))
            continue
        if name == 'iso8859-1':
            if not inrange(x, 0, 255):
                raise _enc_error(encoding)
            out.append(norm(_wide(c, 8)))
        elif name == 'ascii':
            if not inrange(x, 0, 127):
                raise _enc_error(encoding)
            out.append(norm(_wide(c, 8)))
        elif name in ('utf-16-le', 'utf-16-be'):
            if not inrange(x, 0, 0xFFFF):
                y = x - 0x10000
                hi = 0xD800 + (y >> 10)
                lo = 0xDC00 + (y & 0x3FF)
                units = [mat(hi, 16), mat(lo, 16)]
            else:
                if x.hi >= 0xD800 and branch(tm.and_b([
                        tm.not_b(ltterm(x, 0xD800)), ltterm(x, 0xE000)])):
                    raise _enc_error(encoding)
                units = [mat(x, 16)]
            for u in units:
                a, b = norm(tm.extract(u, 0, 8)), norm(tm.extract(u, 8, 8))
                out += [a, b] if name == 'utf-16-le' else [b, a]
        elif name == 'utf-8':
            if inrange(x, 0, 0x7F):
                out.append(norm(_wide(c, 8)))
            elif inrange(x, 0, 0x7FF):
                out.append(value_to_elem(0xC0 | (x >> 6)))
                out.append(value_to_elem(0x80 | (x & 0x3F)))
            elif inrange(x, 0, 0xFFFF):
                if branch(tm.and_b([tm.not_b(ltterm(x, 0xD800)), ltterm(x, 0xE000)])):
                    raise _enc_error(encoding)
                out.append(value_to_elem(0xE0 | (x >> 12)))
                out.append(value_to_elem(0x80 | ((x >> 6) & 0x3F)))
                out.append(value_to_elem(0x80 | (x & 0x3F)))
            else:
                out.append(value_to_elem(0xF0 | ((x >> 18) & 7)))
                out.append(value_to_elem(0x80 | ((x >> 12) & 0x3F)))
                out.append(value_to_elem(0x80 | ((x >> 6) & 0x3F)))
                out.append(value_to_elem(0x80 | (x & 0x3F)))
        elif name in _SINGLE:
            dec = _cp_tables(name)
            same = [b for b in range(256) if dec[b] == b]
            ident = tm.or_b(_ranges(x, same))
            if branch(ident):
                out.append(norm(_wide(c, 8)))
                continue
            other = [(dec[b], b) for b in range(256) if dec[b] not in (-1, b)]
            ok = tm.or_b([eqterm(x, u) for u, _ in other])
            if not branch(ok):
                raise _enc_error(encoding)
            r = tm.const(0, 8)
            for u, b in other:
                r = tm.ite(eqterm(x, u), tm.const(b, 8), r)
            out.append(norm(r))
        elif name == 'shift_jis':
            if inrange(x, 0, 0x7F):
                out.append(norm(_wide(c, 8)))
            elif inrange(x, 0xFF61, 0xFF9F):
                out.append(value_to_elem(x - 0xFF61 + 0xA1))
            else:
                out.extend(chr(CUR.concretize(x)).encode(name))
        else:
            out.extend(chr(CUR.concretize(x)).encode(name))
    return SBytes(_flatv(out))


def _ranges(x, vals):
    """Membership in a sorted list of ints as range tests."""
    cs = []
    i = 0
    while i < _len(vals):
        j = i
        while j + 1 < _len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        cs.append(tm.and_b([tm.not_b(ltterm(x, vals[i])), tm.not_b(ltterm(vals[j], x))]))
        i = j + 1
    return cs


def decode_bytes(b, encoding, errors='strict'):
    name = codecs.lookup(encoding).name
    if b.isconcrete() or errors != 'strict':
        return concretize_bytes(b).decode(encoding, errors)
    v = list(b.flat())
    out = []
    if name == 'utf-16':
        if _len(v) >= 2 and v[:2] == [0xFE, 0xFF]:
            name, v = 'utf-16-be', v[2:]
        elif _len(v) >= 2 and v[:2] == [0xFF, 0xFE]:
            name, v = 'utf-16-le', v[2:]
        else:
            return concretize_bytes(b).decode(encoding, errors)
    i = 0
    n = _len(v)
    while i < n:
        c = v[i]
        if name == 'iso8859-1':
            out.append(c)
            i += 1
        elif name == 'ascii':
            if _isinstance(c, T):
                if not inrange(from_term(c), 0, 127):
                    raise _dec_error(encoding)
            elif c > 127:
                raise _dec_error(encoding)
            out.append(c)
            i += 1
        elif name in _SINGLE:
            dec = _cp_tables(name)
            if not _isinstance(c, T):
                if dec[c] == -1:
                    raise _dec_error(encoding)
                out.append(dec[c])
            else:
                x = from_term(c)
                bad = [k for k in range(256) if dec[k] == -1]
                if branch(tm.or_b(_ranges(x, bad))):
                    raise _dec_error(encoding)
                same = [k for k in range(256) if dec[k] == k]
                if branch(tm.or_b(_ranges(x, same))):
                    out.append(c)
                else:
                    out.append(tm.tab(tuple(max(0, d) for d in dec), 16, c))
            i += 1
        elif name in ('utf-16-le', 'utf-16-be'):
            if i + 1 >= n:
                raise _dec_error(encoding)
            u = _unit(v, i, name)
            i += 2
            if not _isinstance(u, SInt):
                if 0xD800 <= u < 0xE000:
                    # surrogates: need the next unit
                    if u >= 0xDC00 or i + 1 >= n:
                        raise _dec_error(encoding)
                    u2 = _unit(v, i, name)
                    i += 2
                    if not inrange(u2, 0xDC00, 0xDFFF):
                        raise _dec_error(encoding)
                    out.append(_char(0x10000 + ((u - 0xD800) << 10) + (u2 - 0xDC00)))
                else:
                    out.append(u)
                continue
            if branch(tm.and_b([tm.not_b(ltterm(u, 0xD800)), ltterm(u, 0xE000)])):
                if i + 1 >= n or not inrange(u, 0xD800, 0xDBFF):
                    raise _dec_error(encoding)
                u2 = _unit(v, i, name)
                i += 2
                if not inrange(u2, 0xDC00, 0xDFFF):
                    raise _dec_error(encoding)
                out.append(_char(0x10000 + ((u - 0xD800) << 10) + (u2 - 0xDC00)))
            else:
                out.append(_char(u))
        elif name == 'utf-8':
            x = elem_to_value(c)
            if inrange(x, 0, 0x7F):
                out.append(c)
                i += 1
                continue
            if inrange(x, 0xC2, 0xDF):
                k, base, least = 1, x & 0x1F, 0x80
            elif inrange(x, 0xE0, 0xEF):
                k, base, least = 2, x & 0x0F, 0x800
            elif inrange(x, 0xF0, 0xF4):
                k, base, least = 3, x & 0x07, 0x10000
            else:
                raise _dec_error(encoding)
            if i + k >= n:
                raise _dec_error(encoding)
            val = base
            for j in range(1, k + 1):
                y = elem_to_value(v[i + j])
                if not inrange(y, 0x80, 0xBF):
                    raise _dec_error(encoding)
                val = (val << 6) | (y & 0x3F)
            if not inrange(val, least, 0x10FFFF) or inrange(val, 0xD800, 0xDFFF):
                raise _dec_error(encoding)
            out.append(_char(val))
            i += k + 1
        elif name == 'shift_jis':
            x = elem_to_value(c)
            if inrange(x, 0, 0x7F):
                out.append(c)
                i += 1
            elif inrange(x, 0xA1, 0xDF):
                out.append(_char(x - 0xA1 + 0xFF61))
                i += 1
            else:
                raw = concretize_bytes(SBytes(v[i:i + 2]))
                s = raw.decode(name)
                out.extend(ord(ch) for ch in s)
                i += _len(raw)
        else:
            return concretize_bytes(b).decode(encoding, errors)
    return SStr.of(out)


def _unit(v, i, name):
    a, b = v[i], v[i + 1]
    if name == 'utf-16-be':
        a, b = b, a
    if not _isinstance(a, T) and not _isinstance(b, T):
        return a | (b << 8)
    return from_term(tm.cat([_wide(a, 8), _wide(b, 8)]))


def _char(x):
    if not _isinstance(x, SInt):
        return x
    return term(x)


class SRat:
    """The float num / den, for a symbolic integer num (below 2**50 in size)
    and a constant positive den; comparisons with integers and conversions to
    integers are exact for such floats."""

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def __floor__(self):
        return self.num // self.den

    def __ceil__(self):
        return -((-self.num) // self.den)

    def __trunc__(self):
        if _isinstance(self.num, SInt) and self.num.lo < 0 or not _isinstance(self.num, SInt):
            if bool(self.num < 0):
                return self.__ceil__()
        return self.__floor__()

    def __add__(self, o):
        if type(o) is _int or _isinstance(o, SInt):
            return _rat(self.num + o * self.den, self.den)
        return float(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is _int or _isinstance(o, SInt):
            return _rat(self.num - o * self.den, self.den)
        return float(self) - o

    def __rsub__(self, o):
        if type(o) is _int or _isinstance(o, SInt):
            return _rat(o * self.den - self.num, self.den)
        return o - float(self)

    def __mul__(self, o):
        if type(o) is _int and 0 <= o < 1 << 12:
            return _rat(self.num * o, self.den)
        return float(self) * o
    __rmul__ = __mul__

    def __neg__(self):
        return _rat(-self.num, self.den)

    def __truediv__(self, o):
        if type(o) is _int and 0 < o and o * self.den < 1 << 30:
            return _rat(self.num, self.den * o)
        return float(self) / o

    def __rtruediv__(self, o):
        return o / float(self)

    def __floordiv__(self, o):
        if type(o) is _int and 0 < o and o * self.den < 1 << 30:
            return _rat(self.num // (self.den * o), 1)
        return float(self) // o

    def __mod__(self, o):
        return float(self) % o

    def __eq__(self, o):
        if type(o) is _int or _isinstance(o, SInt):
            return self.num == o * self.den
        if type(o) is float and o == _int(o):
            return self.num == _int(o) * self.den
        if _isinstance(o, SRat) and o.den == self.den:
            return self.num == o.num
        if _isinstance(o, (float, SRat)):
            return float(self) == float(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __lt__(self, o):
        if type(o) is _int or _isinstance(o, SInt):
            return self.num < o * self.den
        return float(self) < float(o)

    def __le__(self, o):
        if type(o) is _int or _isinstance(o, SInt):
            return self.num <= o * self.den
        return float(self) <= float(o)

    def __gt__(self, o):
        if type(o) is _int or _isinstance(o, SInt):
            return self.num > o * self.den
        return float(self) > float(o)

    def __ge__(self, o):
        if type(o) is _int or _isinstance(o, SInt):
            return self.num >= o * self.den
        return float(self) >= float(o)

    def is_integer(self):
        return self.num % self.den == 0

    def __bool__(self):
        return bool(self.num != 0)

    def __hash__(self):
        return hash(float(self))

    def __float__(self):
        return cint(self.num) / self.den

    def __round__(self, n=None):
        return round(float(self), n)

    def __repr__(self):
        return repr(float(self))


def _quo(num, den):
    """num / den for a symbolic den, or None if it has to be concretised."""
    if type(num) is float and num == _int(num):
        num = _int(num)
    if not (type(num) is _int or _isinstance(num, SInt)) or den.lo < 0 or den.hi >= 1 << 45:
        return None
    lo, hi = (num.lo, num.hi) if _isinstance(num, SInt) else (num, num)
    if lo < 0 or hi >= 1 << 45:
        return None
    if branch(eqterm(den, 0)):
        raise ZeroDivisionError('division by zero')
    return SQuo(num, den, 0, lambda: cint(num) / cint(den))


class SQuo:
    """The float num / den for a symbolic positive integer den, after
    roundings that change it by less than err * 2**-53 of its size.  Its
    integer part is that of the exact quotient unless the quotient is an
    integer: others are at least 1 / den away from integers.  fl computes the
    float."""

    def __init__(self, num, den, err, fl):
        self.num, self.den, self.err, self.fl = num, den, err, fl

    def _ok(self, num, den):
        top = num.hi if _isinstance(num, SInt) else num
        return top < 1 << 48 and den.hi < 1 << 60 and self.err < 16

    def __mul__(self, o):
        if type(o) is float and o == _int(o):
            o = _int(o)
        if type(o) is _int and o > 0 and self._ok(self.num * o, self.den):
            fl = self.fl
            return SQuo(self.num * o, self.den, self.err + 2 * (o & (o - 1) != 0), lambda: fl() * o)
        return float(self) * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is float and o == _int(o):
            o = _int(o)
        if type(o) is _int and o > 0 and self._ok(self.num, self.den * o):
            fl = self.fl
            return SQuo(self.num, self.den * o, self.err + 2 * (o & (o - 1) != 0), lambda: fl() / o)
        return float(self) / o

    def exact(self):
        return not self.err or not branch(eqterm(self.num % self.den, 0))

    def __floor__(self):
        return self.num // self.den if self.exact() else math.floor(float(self))

    def __ceil__(self):
        return -(-self.num // self.den) if self.exact() else math.ceil(float(self))

    def __trunc__(self):
        return self.__floor__()

    def __float__(self):
        return self.fl()

    def __bool__(self):
        return bool(self.num != 0)

    def __hash__(self):
        return hash(float(self))

    def __repr__(self):
        return repr(float(self))

    def __round__(self, n=None):
        return round(float(self), n)


def _quoop(name):
    def f(self, o):
        if _isinstance(o, (SQuo, SRat)):
            o = float(o)
        return getattr(float(self), name)(cint(o) if _isinstance(o, SInt) else o)
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'rmod', 'eq', 'ne', 'lt', 'le',
           'gt', 'ge'):
    setattr(SQuo, f'__{_n}__', _quoop(f'__{_n}__'))


def _rat(num, den):
    if _isinstance(num, SInt):
        return SRat(num, den)
    return num / den
