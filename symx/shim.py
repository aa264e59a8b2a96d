"""
Replacements for the builtins and standard modules the ndspy sources use,
which accept symbolic values.  On fully concrete arguments every one of
them behaves like (and mostly calls) the original.
"""

import builtins
import enum as real_enum
import math as real_math
import os as real_os
import struct as real_struct
import types

from . import terms as tm
from . import values as V
from .terms import T
from .values import SInt, SBool, SBytes, SByteArray, SStr

_isinstance = builtins.isinstance
_len = builtins.len
_range = builtins.range
_int = builtins.int
_bool = builtins.bool
_str = builtins.str
_bytes = builtins.bytes
_bytearray = builtins.bytearray
_type = builtins.type


# ---------------------------------------------------------------------------
# Types

class _ShimMeta(_type):
    def __instancecheck__(cls, x):
        return _isinstance(x, cls._inst)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._inst)

    def __getattr__(cls, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(cls._real, name)

    def __or__(cls, o):
        return object

    __ror__ = __or__

    def __getitem__(cls, o):
        return cls

    def __repr__(cls):
        return repr(cls._real)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class _IntMeta(_ShimMeta):
    def __call__(cls, *a, **kw):
        if not a:
            return _int(*a, **kw)
        x = a[0]
        if _len(a) == 1 and not kw:
            if _isinstance(x, SInt):
                return x
            if _isinstance(x, SBool):
                return x.asint()
            if _isinstance(x, (SLog, V.SRat, V.SQuo)):
                return x.__trunc__()
        if _isinstance(x, SStr):
            x = x.concretize()
        elif _isinstance(x, SBytes):
            x = V.concretize_bytes(x)
        elif _isinstance(x, _str) and V.hasmarker(x):
            x = V.resolve_markers(x)
        return _int(x, *[V.cint(y) for y in a[1:]], **kw)


class IntShim(metaclass=_IntMeta):
    _real = _int
    _inst = (_int, SInt, SBool)
    __name__ = 'int'

    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if not V.isbyteslike(b):
            b = BytesShim(b)
        v = V.as_sbytes(b).flat()
        if not _isinstance(v, list):
            return _int.from_bytes(v, byteorder, signed=signed)
        if byteorder == 'big':
            v = v[::-1]
        return elems_to_int(v, signed)


class _BoolMeta(_ShimMeta):
    def __call__(cls, x=False):
        if _isinstance(x, SBool):
            return x
        if _isinstance(x, SInt):
            return V.mkbool(V.boolterm(x))
        return _bool(x)


class BoolShim(metaclass=_BoolMeta):
    _real = _bool
    _inst = (_bool, SBool)
    __name__ = 'bool'


def elems_to_int(v, signed):
    """Little-endian list of elements -> integer."""
    if not v:
        return 0
    t = tm.cat([e if _isinstance(e, T) else tm.const(e, 8) for e in v])
    return V.from_signed(t) if signed else V.from_term(t)


class _BytesMeta(_ShimMeta):
    def __call__(cls, x=None, encoding=None, errors='strict', source=None, string=None):
        c = cls._sym
        if x is None:
            x = source if source is not None else string
        if x is None:
            return c._flat(b'')
        if V.isstrlike(x):
            if encoding is None:
                raise TypeError('string argument without an encoding')
            x = x.encode(encoding, errors)
        if _isinstance(x, SBool):
            x = x.asint()
        if _isinstance(x, SInt):
            if x.lo < 0 and V.branch(V.ltterm(x, 0)):
                raise ValueError('negative count')
            return c._of([('f', 0, x)])
        if _isinstance(x, _int):
            if x < 0:
                raise ValueError('negative count')
            return c._flat(_bytes(x))
        if V.isbyteslike(x):
            return c._of(V.segs_of(x))
        if hasattr(_type(x), '__bytes__'):
            return c._of(V.segs_of(x.__bytes__()))
        if hasattr(x, '__index__') and not hasattr(x, '__iter__'):
            return c._flat(_bytes(x.__index__()))
        return c._flat(V._flatv([V.value_to_elem(y) for y in x]))


class BytesShim(metaclass=_BytesMeta):
    _real = _bytes
    _sym = SBytes
    __name__ = 'bytes'

    class _I(_type):
        pass

    @staticmethod
    def fromhex(s):
        return SBytes(_bytes.fromhex(s))

    @staticmethod
    def join(sep, items):
        return V.as_sbytes(sep).join(items)


class _BytesInst(_type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (_bytes, SBytes)) and not _isinstance(x, SByteArray)


class _BI(metaclass=_BytesInst):
    pass


BytesShim._inst = _BI


class ByteArrayShim(metaclass=_BytesMeta):
    _real = _bytearray
    _sym = SByteArray
    _inst = (_bytearray, SByteArray)
    __name__ = 'bytearray'

    @staticmethod
    def fromhex(s):
        return SByteArray(_bytearray.fromhex(s))


class _StrMeta(_ShimMeta):
    def __call__(cls, *a, **kw):
        if a and _isinstance(a[0], SStr):
            return a[0]
        if a and _isinstance(a[0], SBytes) and (_len(a) > 1 or kw):
            return a[0].decode(*a[1:], **kw)
        if a and _isinstance(a[0], SBytes) and a[0].isconcrete():
            return _str(V.concretize_bytes(a[0]))
        return _str(*a, **kw)


class StrShim(metaclass=_StrMeta):
    _real = _str
    _inst = (_str, SStr)
    __name__ = 'str'

    @staticmethod
    def join(sep, items):
        return V.strjoin(sep, items)


class _MVMeta(_ShimMeta):
    def __call__(cls, x):
        if _isinstance(x, SBytes):
            return x
        return memoryview(x)


class MemoryViewShim(metaclass=_MVMeta):
    _real = memoryview
    _inst = (memoryview, SBytes)
    __name__ = 'memoryview'


class _DictMeta(_ShimMeta):
    def __call__(cls, *a, **kw):
        d = SDict()
        if a:
            src = a[0]
            d.update(src)
        d.update(kw)
        return d


class DictShim(metaclass=_DictMeta):
    _real = dict
    _inst = (dict,)
    __name__ = 'dict'

    @staticmethod
    def fromkeys(it, v=None):
        d = SDict()
        for k in it:
            d[k] = v
        return d


class _SetMeta(_ShimMeta):
    def __call__(cls, it=()):
        return mkset(it)

    def __instancecheck__(cls, x):
        return _isinstance(x, set) and not _isinstance(x, SFrozenSet)


class SetShim(metaclass=_SetMeta):
    _real = set
    _inst = (set,)
    __name__ = 'set'


class _FrozenSetMeta(_ShimMeta):
    def __call__(cls, it=()):
        return SFrozenSet(it)


class FrozenSetShim(metaclass=_FrozenSetMeta):
    _real = frozenset
    __name__ = 'frozenset'


class _TypeMeta(_type):
    def __call__(cls, *a, **kw):
        if _len(a) == 1 and not kw:
            t = _type(a[0])
            return _TYPEMAP.get(t, t)
        return _type(*a, **kw)

    def __instancecheck__(cls, x):
        return _isinstance(x, _type)

    def __subclasscheck__(cls, c):
        return issubclass(c, _type)


class TypeShim(metaclass=_TypeMeta):
    __name__ = 'type'


def issym(x):
    """Symbolic enough that native hashing must be avoided."""
    if _isinstance(x, (SInt, SBool, SStr)):
        return True
    if _isinstance(x, SBytes):
        return True
    if _isinstance(x, tuple):
        return any(issym(y) for y in x)
    return False


class SDict(dict):
    """dict which also takes symbolic keys (matched by branching)."""

    def __init__(self, *a, **kw):
        self._p = None
        if a or kw:
            self.update(*a, **kw)

    def _promote(self):
        if self._p is None:
            self._p = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, k):
        if self._p is None:
            if not issym(k):
                return None
            if not dict.__len__(self):
                return None
            # lookup of a symbolic key among concrete ones
            for kk, vv in dict.items(self):
                if _type(kk) is not _type(k) and not _compat(kk, k):
                    continue
                if V.boolterm(keyeq(kk, k)) is not tm.FALSE and keyeq(kk, k):
                    return kk, vv
            return False
        for e in self._p:
            if keyeq(e[0], k):
                return e
        return False

    def __getitem__(self, k):
        if self._p is None and not issym(k):
            return dict.__getitem__(self, k)
        if self._p is None and _isinstance(k, SInt):
            r = _tablelookup(self, k)
            if r is not None:
                return r
        e = self._find(k)
        if not e:
            if hasattr(_type(self), '__missing__'):
                return self.__missing__(k)
            raise KeyError('symbolic key')
        return e[1]

    def __setitem__(self, k, v):
        if self._p is None and not issym(k):
            dict.__setitem__(self, k, v)
            return
        if self._p is None:
            e = self._find(k)
            if e:
                dict.__setitem__(self, e[0], v)
                return
            self._promote()
            self._p.append([k, v])
            return
        e = self._find(k)
        if e:
            e[1] = v
        else:
            self._p.append([k, v])

    def __delitem__(self, k):
        self.pop(k)

    def __contains__(self, k):
        if self._p is None and not issym(k):
            return dict.__contains__(self, k)
        return bool(self._find(k))

    def get(self, k, d=None):
        if self._p is None and not issym(k):
            return dict.get(self, k, d)
        e = self._find(k)
        return e[1] if e else d

    def pop(self, k, *d):
        if self._p is None and not issym(k):
            return dict.pop(self, k, *d)
        e = self._find(k)
        if not e:
            if d:
                return d[0]
            raise KeyError('symbolic key')
        if self._p is None:
            return dict.pop(self, e[0])
        self._p.remove(e) if False else self._rm(e)
        return e[1]

    def _rm(self, e):
        for i, x in enumerate(self._p):
            if x is e:
                del self._p[i]
                return

    def popitem(self):
        if self._p is None:
            return dict.popitem(self)
        if not self._p:
            raise KeyError('popitem(): dictionary is empty')
        return tuple(self._p.pop())

    def setdefault(self, k, d=None):
        if self._p is None and not issym(k):
            return dict.setdefault(self, k, d)
        e = self._find(k)
        if e:
            return e[1]
        self[k] = d
        return d

    def update(self, *a, **kw):
        for src in a:
            if hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        d = SDict(self)
        d.update(o)
        return d

    def keys(self):
        return dict.keys(self) if self._p is None else [e[0] for e in self._p]

    def values(self):
        return dict.values(self) if self._p is None else [e[1] for e in self._p]

    def items(self):
        return dict.items(self) if self._p is None else [tuple(e) for e in self._p]

    def __iter__(self):
        return dict.__iter__(self) if self._p is None else iter([e[0] for e in self._p])

    def __reversed__(self):
        return reversed(list(self.keys()))

    def __len__(self):
        return dict.__len__(self) if self._p is None else _len(self._p)

    def __bool__(self):
        return self.__len__() > 0

    def clear(self):
        dict.clear(self)
        self._p = None

    def copy(self):
        return SDict(self)

    __copy__ = copy

    def __eq__(self, o):
        if not _isinstance(o, dict):
            return NotImplemented
        if self._p is None and not (_isinstance(o, SDict) and o._p is not None):
            return dict.__eq__(self, o)
        if _len(self) != _len(o):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join(f'{k!r}: {v!r}' for k, v in self.items()) + '}'


def _compat(a, b):
    ints = (_int, SInt, SBool)
    if _isinstance(a, ints) and _isinstance(b, ints):
        return True
    if V.isbyteslike(a) and V.isbyteslike(b):
        return True
    if V.isstrlike(a) and V.isstrlike(b):
        return True
    if _isinstance(a, tuple) and _isinstance(b, tuple):
        return True
    return False


def keyeq(a, b):
    if not _compat(a, b):
        return False if (issym(a) or issym(b)) else a == b
    if _isinstance(a, tuple):
        if _len(a) != _len(b):
            return False
        return all(keyeq(x, y) for x, y in zip(a, b))
    return a == b


def _tablelookup(d, k):
    """d[k] for an all-int dict and symbolic k known to be a key."""
    vals = list(dict.values(d))
    if not vals or not all(_isinstance(v, _int) and not _isinstance(v, real_enum.Enum)
                           and not _isinstance(v, bool) and v >= 0 for v in vals):
        return None
    keys = list(dict.keys(d))
    if not all(_isinstance(x, _int) for x in keys):
        return None
    if not V.branch(tm.or_b([V.eqterm(k, x) for x in keys])):
        raise KeyError('symbolic key')
    r = vals[0]
    for x, v in zip(keys[1:], vals[1:]):
        r = V.ite(V.eqterm(k, x), v, r)
    return r


def mkset(it):
    s = SSet()
    for x in it:
        s.add(x)
    return s


class SSet(set):
    """set which also takes symbolic members."""

    def __init__(self, it=()):
        set.__init__(self)
        self._p = None
        for x in it:
            self.add(x)

    def _promote(self):
        if self._p is None:
            self._p = list(set.__iter__(self))
            set.clear(self)

    def _has(self, x):
        for y in (self._p if self._p is not None else set.__iter__(self)):
            if keyeq(y, x):
                return True
        return False

    def add(self, x):
        if self._p is None and not issym(x):
            set.add(self, x)
            return
        if not self._has(x):
            self._promote()
            self._p.append(x)

    def __contains__(self, x):
        if self._p is None and not issym(x):
            return set.__contains__(self, x)
        return self._has(x)

    def discard(self, x):
        if self._p is None and not issym(x):
            set.discard(self, x)
            return
        self._promote()
        for i, y in enumerate(self._p):
            if keyeq(y, x):
                del self._p[i]
                return

    def remove(self, x):
        if x not in self:
            raise KeyError('symbolic key')
        self.discard(x)

    def pop(self):
        if self._p is None:
            return set.pop(self)
        return self._p.pop()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def difference_update(self, *its):
        for it in its:
            for x in it:
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(list(o))
        return self

    def __ior__(self, o):
        self.update(o)
        return self

    def union(self, *its):
        s = SSet(self)
        s.update(*its)
        return s

    __or__ = union

    def difference(self, *its):
        s = SSet(self)
        s.difference_update(*its)
        return s

    __sub__ = difference

    def intersection(self, o):
        o = mkset(o)
        return SSet(x for x in self if x in o)

    __and__ = intersection

    def intersection_update(self, o):
        o = mkset(o)
        for x in list(self):
            if x not in o:
                self.discard(x)

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def symmetric_difference(self, o):
        o = mkset(o)
        s = SSet(x for x in self if x not in o)
        s.update(x for x in o if x not in self)
        return s

    __xor__ = __rxor__ = symmetric_difference

    def symmetric_difference_update(self, o):
        s = list(self.symmetric_difference(o))
        self.clear()
        self.update(s)

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    __ror__ = union

    def __rand__(self, o):
        return self.intersection(o)

    def __rsub__(self, o):
        return mkset(o).difference(self)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def issubset(self, o):
        o = mkset(o)
        return all(x in o for x in self)

    __le__ = issubset

    def issuperset(self, o):
        return all(x in self for x in o)

    __ge__ = issuperset

    def __lt__(self, o):
        return _len(self) < _len(o) and self.issubset(o)

    def __gt__(self, o):
        return _len(self) > _len(o) and self.issuperset(o)

    def __iter__(self):
        return set.__iter__(self) if self._p is None else iter(list(self._p))

    def __len__(self):
        return set.__len__(self) if self._p is None else _len(self._p)

    def __bool__(self):
        return self.__len__() > 0

    def clear(self):
        set.clear(self)
        self._p = None

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def __eq__(self, o):
        if not _isinstance(o, (set, frozenset)):
            return NotImplemented
        if self._p is None and not (_isinstance(o, SSet) and o._p is not None):
            return set.__eq__(self, o)
        return _len(self) == _len(o) and all(x in o for x in self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join(repr(x) for x in self) + '}'


class SFrozenSet(SSet):
    def __hash__(self):
        return hash(frozenset(self))


FrozenSetShim._inst = (frozenset, SFrozenSet)


# ---------------------------------------------------------------------------
# Functions

def s_len(x):
    if _isinstance(x, SBytes):
        return x.slen()
    return _len(x)


class SRange:
    """range with a symbolic bound"""

    def __init__(self, a, b, s):
        self.start, self.stop, self.step = a, b, s
        if not _isinstance(s, _int):
            self.step = V.cint(s)
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')

    def __iter__(self):
        i = self.start
        s = self.step
        while True:
            V.CUR.tick()
            if s > 0:
                c = V.ltterm(i, self.stop)
            else:
                c = V.ltterm(self.stop, i)
            if not V.branch(c):
                return
            yield i
            i = i + s

    def slen(self):
        if self.step > 0:
            n = (self.stop - self.start + self.step - 1) // self.step
        else:
            n = (self.start - self.stop - self.step - 1) // -self.step
        return s_max(n, 0)

    def __len__(self):
        return V.cint(self.slen())

    def __getitem__(self, i):
        if _isinstance(i, slice):
            return _range(*[V.cint(x) for x in (self.start, self.stop, self.step)])[i]
        return self.start + i * self.step

    def __contains__(self, x):
        return bool(self.scontains(x))

    def scontains(self, x):
        if self.step > 0:
            c = tm.and_b([tm.not_b(V.ltterm(x, self.start)), V.ltterm(x, self.stop)])
        else:
            c = tm.and_b([tm.not_b(V.ltterm(self.start, x)), V.ltterm(self.stop, x)])
        if abs(self.step) != 1:
            c = tm.and_b([c, V.eqterm((x - self.start) % abs(self.step), 0)])
        return V.mkbool(c)

    def __reversed__(self):
        return reversed(_range(*[V.cint(x) for x in (self.start, self.stop, self.step)]))


class _RangeMeta(_ShimMeta):
    def __call__(cls, *a):
        if any(_isinstance(x, (SInt, SBool)) for x in a):
            a = [x.asint() if _isinstance(x, SBool) else x for x in a]
            if _len(a) == 1:
                return SRange(0, a[0], 1)
            if _len(a) == 2:
                return SRange(a[0], a[1], 1)
            return SRange(*a)
        return _range(*a)


class RangeShim(metaclass=_RangeMeta):
    _real = _range
    _inst = (_range, SRange)
    __name__ = 'range'


def _minmax(real, less):
    def f(*a, key=None, default=_NOARG):
        if _len(a) == 1:
            it = a[0]
            if _isinstance(it, SBytes):
                it = list(it)
            items = list(it)
            if not items:
                if default is not _NOARG:
                    return default
                raise ValueError('arg is an empty sequence')
        else:
            items = list(a)
        if key is None and all(_isinstance(x, (_int, SInt, SBool)) for x in items) \
                and any(_isinstance(x, (SInt, SBool)) for x in items):
            r = items[0]
            for x in items[1:]:
                if _isinstance(x, SBool):
                    x = x.asint()
                if _isinstance(r, SBool):
                    r = r.asint()
                r = V.ite(less(x, r), x, r)
            return r
        return real(items, key=key)
    return f


_NOARG = object()
s_min = _minmax(builtins.min, lambda x, r: V.ltterm(x, r))
s_max = _minmax(builtins.max, lambda x, r: V.ltterm(r, x))


def s_chr(x):
    if _isinstance(x, SInt):
        if not V.inrange(x, 0, 0x10FFFF):
            raise ValueError('chr() arg not in range(0x110000)')
        return SStr.of([V._char(x if x.lo >= 0 else V.from_term(V.mat(x, 21)))])
    return chr(x)


def s_ord(x):
    if _isinstance(x, SStr):
        if _len(x.v) != 1:
            raise TypeError('ord() expected a character')
        return V.elem_to_value(x.v[0])
    if _isinstance(x, SBytes):
        if _len(x) != 1:
            raise TypeError('ord() expected a character')
        return x[0]
    return ord(x)


def _display(real):
    def f(x, *a):
        if _isinstance(x, (SInt, SBool)):
            return V.marker(x)
        return real(x, *a)
    return f


def s_repr(x):
    if _isinstance(x, SBytes) and x.isconcrete():
        r = repr(V.concretize_bytes(x))
        return f'bytearray({r})' if x.mutable else r
    return repr(x)


def s_print(*a, **kw):
    pass


def s_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def s_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def s_iter(*a):
    return iter(*a)


def s_callable_isinstance(x, c):
    return _isinstance(x, c)


class VFile:
    """File of the in-memory file system."""

    def __init__(self, path, mode):
        kind = mode.replace('b', '').replace('+', '').replace('U', '')
        if kind not in ('r', 'w', 'a', 'x'):
            raise ValueError('invalid mode: ' + mode)
        if 'b' not in mode:
            raise NotImplementedError('text files are not modelled')
        self.path = path
        self.mode = mode
        fs = V.CUR.fs
        if kind == 'r' and path not in fs:
            raise FileNotFoundError(2, 'No such file', path)
        if kind == 'x' and path in fs:
            raise FileExistsError(17, 'File exists', path)
        if kind in 'wx' or path not in fs:
            fs[path] = SBytes(b'')
        self.appending = kind == 'a'
        self.canread = kind == 'r' or '+' in mode
        self.canwrite = kind != 'r' or '+' in mode
        self.pos = self.data.slen() if self.appending else 0
        self.closed = False

    @property
    def data(self):
        return V.CUR.fs[self.path]

    @property
    def name(self):
        return self.path

    def readable(self):
        return self.canread

    def writable(self):
        return self.canwrite

    def _use(self, can):
        import io
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not can:
            raise io.UnsupportedOperation('not possible with mode ' + self.mode)

    def read(self, n=-1):
        self._use(self.canread)
        if n is None or (_isinstance(n, _int) and n < 0):
            r = self.data[self.pos:]
        else:
            r = self.data[self.pos:self.pos + n]
        self.pos = self.pos + r.slen()
        return r

    def readinto(self, buf):
        r = self.read(s_len(buf))
        buf[:s_len(r)] = r
        return s_len(r)

    def write(self, b):
        self._use(self.canwrite)
        if _isinstance(b, (_str, SStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        b = V.as_sbytes(b)
        d = self.data
        if self.appending:
            self.pos = d.slen()
        gap = self.pos - d.slen()
        if gap > 0:
            d = d + BytesShim(gap)
        V.CUR.fs[self.path] = SBytes._of(V.segs_of(V.as_sbytes(d[:self.pos])) + V.segs_of(b) +
                                         V.segs_of(V.as_sbytes(d[self.pos + b.slen():])))
        self.pos = self.pos + b.slen()
        return b.slen()

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def truncate(self, n=None):
        self._use(self.canwrite)
        n = self.pos if n is None else n
        V.CUR.fs[self.path] = V.as_sbytes(self.data[:n])
        return n

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else self.data.slen() + p
        return self.pos

    def tell(self):
        return self.pos

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def s_open(path, mode='r', *a, **kw):
    if _isinstance(path, SStr):
        path = path.concretize()
    if hasattr(path, '__fspath__'):
        path = path.__fspath__()
    return VFile(path, mode)


# ---------------------------------------------------------------------------
# struct

class _Fmt:
    __slots__ = ('items', 'size', 'order', 'nvals')


_SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4,
          'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'e': 2, 'f': 4, 'd': 8, 's': 1, 'p': 1}
_fmtcache = {}


def parse_format(fmt):
    if _isinstance(fmt, SStr):
        fmt = fmt.concretize()
    if V.isbyteslike(fmt):
        fmt = V.concretize_bytes(V.as_sbytes(fmt)).decode('ascii')
    if not _isinstance(fmt, _str):
        raise TypeError('Struct() argument 1 must be a str or bytes object')
    fmt = V.resolve_markers(fmt)
    p = _fmtcache.get(fmt)
    if p is not None:
        return p
    real_struct.calcsize(fmt)   # raises struct.error on bad formats
    order = '<'
    native = True
    s = fmt
    if s[:1] in ('<', '>', '=', '@', '!'):
        native = s[0] == '@'
        order = {'<': '<', '>': '>', '!': '>', '=': '<', '@': '<'}[s[0]]
        s = s[1:]
    sizes = dict(_SIZES)
    if native:
        sizes.update(l=8, L=8, n=8, N=8, P=8)
    items = []     # (code, offset, size)
    pos = 0
    n = 0
    i = 0
    while i < _len(s):
        ch = s[i]
        if ch.isspace():
            i += 1
            continue
        cnt = None
        j = i
        while s[j].isdigit():
            j += 1
        if j > i:
            cnt = _int(s[i:j])
        ch = s[j]
        i = j + 1
        sz = sizes[ch]
        if native and ch not in 'xcbB?sp':
            pos += -pos % sz
        if ch in 'sp':
            k = 1 if cnt is None else cnt
            items.append((ch, pos, k))
            pos += k
            n += 1
        else:
            for _ in _range(1 if cnt is None else cnt):
                if ch != 'x':
                    items.append((ch, pos, sz))
                    n += 1
                pos += sz
    p = _Fmt()
    p.items, p.size, p.order, p.nvals = items, pos, order, n
    if real_struct.calcsize(fmt) != pos:
        raise NotImplementedError('struct format ' + fmt)
    if _len(_fmtcache) < 5000:
        _fmtcache[fmt] = p
    return p


def _packint(x, size, signed, code):
    if _isinstance(x, SBool):
        x = x.asint()
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed \
        else (0, (1 << (8 * size)) - 1)
    if _isinstance(x, SInt):
        if not V.inrange(x, lo, hi):
            raise real_struct.error(f"'{code}' format requires {lo} <= number <= {hi}")
        if not signed:
            t = V.mat_checked(x, 8 * size)
        else:
            t = V.mat_checked_signed(x, 8 * size)
        return [V.norm(tm.extract(t, 8 * k, 8)) for k in _range(size)]
    if _isinstance(x, _int):
        v = _int(x)
    else:
        if not hasattr(x, '__index__'):
            raise real_struct.error('required argument is not an integer')
        v = x.__index__()
    if not lo <= v <= hi:
        raise real_struct.error(f"'{code}' format requires {lo} <= number <= {hi}")
    return list(v.to_bytes(size, 'little', signed=signed))


def _pack(p, vals):
    if _len(vals) != p.nvals:
        raise real_struct.error(f'pack expected {p.nvals} items for packing (got {_len(vals)})')
    out = [0] * p.size
    for (code, pos, size), x in zip(p.items, vals):
        if code in 'bhilqn':
            bs = _packint(x, size, True, code)
        elif code in 'BHILQNP':
            bs = _packint(x, size, False, code)
        elif code == '?':
            if _isinstance(x, SBool):
                bs = _packint(x, 1, False, code)
            else:
                bs = [1 if x else 0]
        elif code == 'c':
            if not V.isbyteslike(x) or s_len(x) != 1:
                raise real_struct.error('char format requires a bytes object of length 1')
            bs = list(V.as_sbytes(x).flat())
        elif code == 's':
            if not V.isbyteslike(x):
                raise real_struct.error("argument for 's' must be a bytes object")
            x = V.as_sbytes(x)[:size]
            bs = list(x.flat())
            bs += [0] * (size - _len(bs))
        elif code in 'efd':
            if _isinstance(x, (SInt, SBool)):
                x = float(V.cint(x))
            bs = list(real_struct.pack('<' + code, x))
        else:
            raise NotImplementedError('struct code ' + code)
        if p.order == '>' and code not in 'sc':
            bs.reverse()
        out[pos:pos + size] = bs
    return SBytes(V._flatv(out))


def _unpack(p, v):
    """v: list of elements or bytes, of the right size"""
    out = []
    for code, pos, size in p.items:
        b = v[pos:pos + size]
        if code == 's':
            out.append(SBytes(V._flatv(list(b))))
            continue
        if code == 'c':
            out.append(SBytes(V._flatv(list(b))))
            continue
        if p.order == '>':
            b = b[::-1]
        if code in 'efd':
            b = V.concretize_bytes(SBytes(b))
            out.append(real_struct.unpack('<' + code, b)[0])
        elif code == '?':
            x = elems_to_int(list(b), False)
            out.append(x != 0)
        else:
            if _isinstance(b, list):
                out.append(elems_to_int(b, code in 'bhilqn'))
            else:
                out.append(_int.from_bytes(b, 'little', signed=code in 'bhilqn'))
    return tuple(out)


class _StructMod(types.ModuleType):
    pass


def _mkstruct():
    m = _StructMod('struct')
    m.error = real_struct.error

    def calcsize(fmt):
        return parse_format(fmt).size

    def pack(fmt, *vals):
        return _pack(parse_format(fmt), vals)

    def pack_into(fmt, buf, off, *vals):
        p = parse_format(fmt)
        if not _isinstance(buf, SByteArray):
            raise TypeError('read-write bytes-like object expected')
        n = buf.slen()
        off = _fixoff(off, n, p, 'pack_into')
        buf[off:off + p.size] = _pack(p, vals)

    def _fixoff(off, n, p, what):
        if _isinstance(off, SBool):
            off = off.asint()
        lo = off.lo if _isinstance(off, SInt) else off
        if lo < 0 and V.branch(V.ltterm(off, 0)):
            if V.branch(V.ltterm(off + n, 0)):
                raise real_struct.error(f'{what}: offset out of range')
            off = off + n
        if V.branch(V.ltterm(n, off + p.size)):
            raise real_struct.error(f'{what} requires a buffer of at least {p.size} bytes')
        return off

    def unpack_from(fmt, buffer, offset=0):
        p = parse_format(fmt)
        b = V.as_sbytes(buffer)
        n = b.slen()
        off = _fixoff(offset, n, p, 'unpack_from')
        if b.r is None and not _isinstance(off, SInt):
            return _unpack(p, b.v[off:off + p.size])
        if b.r is None and p.size <= 8 and b.slen() <= 64:
            # symbolic offset into flat data: read byte by byte
            return _unpack(p, [b._getelem(off + i) for i in _range(p.size)])
        return _unpack(p, b[off:off + p.size].flat())

    def unpack(fmt, buffer):
        p = parse_format(fmt)
        b = V.as_sbytes(buffer)
        if not bool(b.slen() == p.size):
            raise real_struct.error(f'unpack requires a buffer of {p.size} bytes')
        return _unpack(p, b.flat())

    def iter_unpack(fmt, buffer):
        p = parse_format(fmt)
        b = V.as_sbytes(buffer)
        n = _len(b)
        if p.size == 0:
            raise real_struct.error('cannot iteratively unpack with a struct of length 0')
        if n % p.size:
            raise real_struct.error('iterative unpacking requires a buffer of a multiple of bytes')
        v = b.flat()
        for i in _range(0, n, p.size):
            yield _unpack(p, v[i:i + p.size])

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = calcsize(fmt)

        def pack(self, *vals):
            return pack(self.format, *vals)

        def pack_into(self, buf, off, *vals):
            return pack_into(self.format, buf, off, *vals)

        def unpack(self, b):
            return unpack(self.format, b)

        def unpack_from(self, buffer, offset=0):
            return unpack_from(self.format, buffer, offset)

        def iter_unpack(self, b):
            return iter_unpack(self.format, b)

    m.calcsize, m.pack, m.pack_into = calcsize, pack, pack_into
    m.unpack, m.unpack_from, m.iter_unpack = unpack, unpack_from, iter_unpack
    m.Struct = Struct
    return m


# ---------------------------------------------------------------------------
# math

class SLog:
    """log2(x) + k, for a symbolic positive integer x (x < 2**48, where
    the float computation rounds to the same integers)."""

    def __init__(self, x, k=0):
        self.x = x
        self.k = k

    def __add__(self, o):
        return SLog(self.x, self.k + o)
    __radd__ = __add__

    def __sub__(self, o):
        return SLog(self.x, self.k - o)

    def __ceil__(self):
        return (self.x - 1).bit_length() + self.k if _isinstance(self.x - 1, (SInt, _int)) else None

    def __floor__(self):
        return self.x.bit_length() - 1 + self.k

    def __round__(self, n=None):
        # log2(x) rounds to k or more if x is at least 2**(k - 1/2)
        x, r, k = self.x, 0, 1
        while x.hi >> k - 1:
            r = r + V.ite(V.boolterm(x > real_math.isqrt(1 << 2 * k - 1)), 1, 0)
            k += 1
        return r + self.k

    def __trunc__(self):
        f = self.__floor__()
        if bool(f < 0):
            return self.__ceil__()
        return f

    __int__ = None

    def __float__(self):
        return real_math.log2(V.cint(self.x)) + self.k


def _mkmath():
    m = types.ModuleType('math')
    for n in dir(real_math):
        if not n.startswith('__'):
            setattr(m, n, getattr(real_math, n))

    def log2(x):
        if _isinstance(x, SInt):
            if V.branch(V.ltterm(x, 1)):
                raise ValueError('math domain error')
            return SLog(x)
        if _isinstance(x, V.SRat) and x.den & (x.den - 1) == 0:
            if V.branch(V.ltterm(x.num, 1)):
                raise ValueError('math domain error')
            return SLog(x.num, 1 - x.den.bit_length())
        return real_math.log2(x)

    def log(x, *b):
        if _isinstance(x, SInt):
            if b and b[0] == 2 and not V.branch(V.eqterm(x & (x - 1), 0)):
                return log2(x)  # only powers of two can round differently
            x = V.cint(x)
        return real_math.log(x, *b)

    def ceil(x):
        if _isinstance(x, (SLog, V.SRat, V.SQuo)):
            return x.__ceil__()
        return x if _isinstance(x, SInt) else real_math.ceil(x)

    def floor(x):
        if _isinstance(x, (SLog, V.SRat, V.SQuo)):
            return x.__floor__()
        return x if _isinstance(x, SInt) else real_math.floor(x)

    m.log2, m.log, m.ceil, m.floor = log2, log, ceil, floor
    return m


# ---------------------------------------------------------------------------
# enum

class SEnumType(real_enum.EnumType):
    def __call__(cls, value=_NOARG, *a, **kw):
        if value is not _NOARG and not a and not kw and _isinstance(value, (SInt, SBool)):
            if _isinstance(value, SBool):
                value = value.asint()
            for mem in cls.__members__.values():
                if _isinstance(mem.value, _int) and V.branch(V.eqterm(value, mem.value)):
                    return mem
            raise ValueError(f'not a valid {cls.__name__}')
        if value is _NOARG:
            return real_enum.EnumType.__call__(cls, *a, **kw)
        return real_enum.EnumType.__call__(cls, value, *a, **kw)


def _mkenum():
    m = types.ModuleType('enum')
    for n in dir(real_enum):
        if not n.startswith('__'):
            setattr(m, n, getattr(real_enum, n))

    class Enum(real_enum.Enum, metaclass=SEnumType):
        pass

    class IntEnum(real_enum.IntEnum, metaclass=SEnumType):
        pass

    m.Enum, m.IntEnum, m.EnumMeta, m.EnumType = Enum, IntEnum, SEnumType, SEnumType
    return m


# ---------------------------------------------------------------------------
# PIL, io, functools

class StubImage:
    """Records what would be handed to PIL."""

    def __init__(self, mode, size, data):
        self.mode = mode
        self.size = tuple(V.cint(x) for x in size)
        self.data = V.as_sbytes(data)
        bpp = {'RGBA': 4, 'RGB': 3, 'L': 1, 'P': 1, 'LA': 2}[mode]
        if not bool(self.data.slen() == self.size[0] * self.size[1] * bpp):
            raise ValueError('not enough image data')
        self.bpp = bpp

    @property
    def width(self):
        return self.size[0]

    @property
    def height(self):
        return self.size[1]

    def tobytes(self):
        return self.data

    def getpixel(self, xy):
        x, y = xy
        if not (0 <= x < self.size[0] and 0 <= y < self.size[1]):
            raise IndexError('image index out of range')
        o = (y * self.size[0] + x) * self.bpp
        return tuple(self.data[o + i] for i in _range(self.bpp))

    def copy(self):
        return StubImage(self.mode, self.size, self.data)

    def _rows(self):
        w = self.size[0] * self.bpp
        v = list(self.data.flat())
        return [[v[y * w + x * self.bpp:y * w + (x + 1) * self.bpp]
                 for x in _range(self.size[0])] for y in _range(self.size[1])]

    def _fromrows(self, rows, size):
        out = []
        for r in rows:
            for px in r:
                out.extend(px)
        return StubImage(self.mode, size, SBytes(V._flatv(out)))

    def transpose(self, how):
        rows = self._rows()
        if how == 0:
            rows = [r[::-1] for r in rows]
        elif how == 1:
            rows = rows[::-1]
        else:
            raise NotImplementedError('transpose')
        return self._fromrows(rows, self.size)

    def paste(self, im, box=None, mask=None):
        if mask is not None:
            raise NotImplementedError('paste with mask')
        x0, y0 = (0, 0) if box is None else (V.cint(box[0]), V.cint(box[1]))
        rows = self._rows()
        src = im._rows()
        for y, r in enumerate(src):
            for x, px in enumerate(r):
                if 0 <= y0 + y < self.size[1] and 0 <= x0 + x < self.size[0]:
                    rows[y0 + y][x0 + x] = px
        new = self._fromrows(rows, self.size)
        self.data = new.data

    def crop(self, box):
        x0, y0, x1, y1 = [V.cint(b) for b in box]
        rows = self._rows()
        rows = [r[x0:x1] for r in rows[y0:y1]]
        return self._fromrows(rows, (x1 - x0, y1 - y0))


def mkpil():
    pil = types.ModuleType('PIL')
    img = types.ModuleType('PIL.Image')
    img.FLIP_LEFT_RIGHT = 0
    img.FLIP_TOP_BOTTOM = 1

    class Transpose:
        FLIP_LEFT_RIGHT = 0
        FLIP_TOP_BOTTOM = 1
    img.Transpose = Transpose

    def frombytes(mode, size, data, *a):
        return StubImage(mode, size, data)

    def new(mode, size, color=0):
        n = {'RGBA': 4, 'RGB': 3, 'L': 1}[mode]
        px = list(color) if _isinstance(color, tuple) else [color] * n
        w, h = [V.cint(x) for x in size]
        return StubImage(mode, (w, h), SBytes(_bytes(px)) * (w * h))
    img.frombytes = frombytes
    img.frombuffer = frombytes
    img.new = new
    img.Image = StubImage
    pil.Image = img
    return pil, img


class SBytesIO:
    def __init__(self, initial=b''):
        self.buf = SByteArray._of(V.segs_of(V.as_sbytes(initial)))
        self.pos = 0

    def read(self, n=-1):
        if n is None or (_isinstance(n, _int) and n < 0):
            r = self.buf[self.pos:]
        else:
            r = self.buf[self.pos:self.pos + n]
        self.pos = self.pos + r.slen()
        return r.tobytes()

    def write(self, b):
        b = V.as_sbytes(b)
        n = self.buf.slen()
        if bool(self.pos > n):
            self.buf.extend(SBytes(b'\0') * (self.pos - n))
        self.buf[self.pos:self.pos + b.slen()] = b
        self.pos = self.pos + b.slen()
        return b.slen()

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else self.buf.slen() + p
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        return self.buf.tobytes()

    getbuffer = getvalue

    def readinto(self, b):
        r = self.read(_len(b))
        b[:_len(r)] = r
        return _len(r)

    read1 = read

    def writelines(self, it):
        for x in it:
            self.write(x)

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.buf[n:]
        return n

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class SStringIO:
    def __init__(self, initial=''):
        self.parts = [initial]

    def write(self, s):
        self.parts.append(s)
        return _len(s)

    def getvalue(self):
        return V.strjoin('', self.parts) if any(_isinstance(p, SStr) for p in self.parts) else ''.join(self.parts)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class SArray:
    """array.array of integers"""

    def __init__(self, typecode, init=()):
        if typecode not in 'bBhHiIlLqQ':
            raise ValueError('bad typecode')
        self.typecode = typecode
        self._s = STRUCT.Struct('<' + {'l': 'q', 'L': 'Q'}.get(typecode, typecode))
        self.itemsize = self._s.size
        self.v = []
        if _isinstance(init, (_bytes, _bytearray, SBytes)):
            self.frombytes(init)
        else:
            self.extend(init)

    def _ok(self, x):
        try:
            return self._s.unpack(self._s.pack(x))[0]
        except real_struct.error:
            raise OverflowError('value out of range')

    def append(self, x):
        self.v.append(self._ok(x))

    def extend(self, it):
        for x in it:
            self.append(x)

    fromlist = extend

    def insert(self, i, x):
        self.v.insert(i, self._ok(x))

    def pop(self, i=-1):
        return self.v.pop(i)

    def frombytes(self, b):
        b = V.as_sbytes(b)
        if _len(b) % self.itemsize:
            raise ValueError('bytes length not a multiple of item size')
        self.v.extend(x for x, in self._s.iter_unpack(b))

    def tobytes(self):
        return SBytes(b'').join([self._s.pack(x) for x in self.v])

    def tolist(self):
        return list(self.v)

    def byteswap(self):
        o = STRUCT.Struct('>' + self._s.format[1:])
        self.v = [o.unpack(self._s.pack(x))[0] for x in self.v]

    def reverse(self):
        self.v.reverse()

    def __getitem__(self, i):
        if _isinstance(i, slice):
            return SArray(self.typecode, self.v[i])
        if _isinstance(i, (SInt, SBool)):
            from . import loader
            return loader.Helpers.getitem(self.v, i)
        return self.v[i]

    def __setitem__(self, i, x):
        if _isinstance(i, slice):
            self.v[i] = x.v
        else:
            self.v[V.cint(i)] = self._ok(x)

    def __delitem__(self, i):
        del self.v[i]

    def __len__(self):
        return _len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __eq__(self, o):
        return self.v == o.v if _isinstance(o, SArray) else NotImplemented

    __hash__ = None

    def __add__(self, o):
        return SArray(self.typecode, self.v + o.v)

    def __mul__(self, n):
        return SArray(self.typecode, self.v * n)

    def __iadd__(self, o):
        self.v.extend(o.v)
        return self


STRUCT = None


def _mkarray():
    m = types.ModuleType('array')
    m.array = m.ArrayType = SArray
    return m


def _mkio():
    import io
    m = types.ModuleType('io')
    for n in dir(io):
        if not n.startswith('__'):
            setattr(m, n, getattr(io, n))
    m.BytesIO = SBytesIO
    m.StringIO = SStringIO
    m.open = s_open
    return m


def _mkfunctools():
    import functools
    m = types.ModuleType('functools')
    for n in dir(functools):
        if not n.startswith('__'):
            setattr(m, n, getattr(functools, n))

    def lru_cache(maxsize=128, typed=False):
        def deco(f):
            memo = SDict()
            CACHES.append(memo)

            @functools.wraps(f)
            def g(*a, **kw):
                key = (a, tuple(kw.items()))
                if key in memo:
                    return memo[key]
                r = memo[key] = f(*a, **kw)
                return r
            g.cache_clear = memo.clear
            return g
        if callable(maxsize):
            return deco(maxsize)
        return deco

    m.lru_cache = lru_cache
    m.cache = lru_cache()
    return m


# memo tables of cached functions; cleared for every path
CACHES = []


def _mkpathlib():
    import pathlib
    m = types.ModuleType('pathlib')
    for n in dir(pathlib):
        if not n.startswith('__'):
            setattr(m, n, getattr(pathlib, n))

    class Path(pathlib.PosixPath):
        def read_bytes(self):
            with s_open(_str(self), 'rb') as f:
                return f.read()

        def write_bytes(self, data):
            with s_open(_str(self), 'wb') as f:
                return f.write(data)

        def open(self, mode='r', *a, **kw):
            return s_open(_str(self), mode)

        def exists(self, **kw):
            return _str(self) in V.CUR.fs
        def is_file(self, **kw):
            return _str(self) in V.CUR.fs

        def unlink(self, missing_ok=False):
            _remove(self)
    m.Path = Path
    return m


def _remove(path):
    path = real_os.fspath(path)
    if path not in V.CUR.fs:
        raise FileNotFoundError(2, 'No such file', path)
    del V.CUR.fs[path]


def _rename(a, b):
    a, b = real_os.fspath(a), real_os.fspath(b)
    if a not in V.CUR.fs:
        raise FileNotFoundError(2, 'No such file', a)
    V.CUR.fs[b] = V.CUR.fs.pop(a)


def _mkos():
    """os with the few functions a library uses on files it was named."""
    m = types.ModuleType('os')
    m.__dict__.update({n: v for n, v in vars(real_os).items() if not n.startswith('__')})
    p = types.ModuleType('os.path')
    p.__dict__.update({n: v for n, v in vars(real_os.path).items() if not n.startswith('__')})
    m.path = p
    p.exists = p.isfile = p.lexists = lambda f: real_os.fspath(f) in V.CUR.fs
    p.getsize = lambda f: V.CUR.fs[real_os.fspath(f)].slen()
    m.remove = m.unlink = _remove
    m.rename = m.replace = _rename
    return m


def _mkcopy():
    import copy
    return copy


_TYPEMAP = {_int: IntShim, SInt: IntShim, _bytes: BytesShim, SBytes: BytesShim,
            _bytearray: ByteArrayShim, SByteArray: ByteArrayShim,
            _str: StrShim, SStr: StrShim, dict: DictShim, SDict: DictShim,
            set: SetShim, SSet: SetShim, frozenset: FrozenSetShim, SFrozenSet: FrozenSetShim, SBool: BoolShim, _bool: BoolShim, _range: RangeShim, SRange: RangeShim}


def make_modules():
    global STRUCT
    pil, img = mkpil()
    STRUCT = _mkstruct()
    return {
        'struct': STRUCT,
        'array': _mkarray(),
        'math': _mkmath(),
        'enum': _mkenum(),
        'io': _mkio(),
        'functools': _mkfunctools(),
        'pathlib': _mkpathlib(),
        'os': _mkos(),
        'PIL': pil,
        'PIL.Image': img,
    }


def make_builtins():
    b = dict(vars(builtins))
    b.update(
        int=IntShim, bool=BoolShim, bytes=BytesShim, bytearray=ByteArrayShim, str=StrShim,
        memoryview=MemoryViewShim, dict=DictShim, set=SetShim, frozenset=FrozenSetShim, type=TypeShim,
        range=RangeShim, len=s_len, min=s_min, max=s_max, sum=s_sum,
        chr=s_chr, ord=s_ord, hex=_display(hex), bin=_display(bin),
        oct=_display(oct), repr=s_repr, print=s_print, open=s_open)
    return b
