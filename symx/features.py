"""Programs in the ways of writing things one may meet in the code under test;
the self-test runs each of them symbolically and on ordinary values."""

import array
import base64
import binascii
import bisect
import collections
import contextlib
import copy
import dataclasses
import enum
import functools
import hashlib
import heapq
import io
import itertools
import math
import operator
import string
import struct
import typing
from collections import defaultdict, deque, namedtuple, OrderedDict, Counter
from dataclasses import dataclass, field
from functools import partial, reduce
from typing import NamedTuple


def f_bytesio(e):
    d = e.bytes('d', 8)
    with io.BytesIO(d) as f:
        n = f.read(2)
        f.seek(1, 1)
        m = f.read(3)
        p = f.tell()
        rest = f.read()
    e.out('x', [n, m, p, rest])
    g = io.BytesIO()
    g.write(b'ab')
    g.write(d[:3])
    g.seek(1)
    g.write(bytes([d[0] ^ 1]))
    g.seek(0, 2)
    g.write(d)
    e.out('y', [g.getvalue(), g.tell(), bytes(g.getbuffer())])


def f_memoryview(e):
    d = e.bytes('d', 8)
    v = memoryview(d)
    e.out('x', [bytes(v[2:5]), v[1], len(v[3:]), v[2:4].tobytes(), list(v[:2])])
    b = bytearray(d)
    w = memoryview(b)
    w[1:3] = b'xy'
    w[0] = d[7]
    e.out('y', bytes(b))


def f_iterunpack(e):
    d = e.bytes('d', 12)
    e.out('x', [list(t) for t in struct.iter_unpack('<HH', d)])
    s = struct.Struct('>BHB')
    e.out('y', [s.size, list(s.unpack_from(d, 3)), list(s.unpack(d[:4])), [list(t) for t in s.iter_unpack(d)]])
    e.out('z', s.pack(d[0], d[1] * 256 + d[2], d[3]))
    b = bytearray(6)
    s.pack_into(b, 1, 1, d[4] << 8, d[5])
    e.out('w', bytes(b))


def f_array(e):
    a = array.array('H', [1, 2, 3])
    a.append(9)
    d = e.bytes('d', 4)
    e.out('x', [a[1] + d[0], a.tobytes() + d])
    b = array.array('H', d)
    b.append(d[0] * 5)
    c = array.array('b', [0]) * 3
    c[1] = d[3] - 128
    h = array.array('H')
    h.frombytes(d)
    h.byteswap()
    e.out('y', [list(b), b.tobytes(), c.tolist(), bytes(c.tobytes()), b[1:].tolist(), len(b), h.tolist(), b[d[0] & 1]])


def f_namedtuple(e):
    P = namedtuple('P', 'x y z', defaults=[7])
    d = e.bytes('d', 3)
    p = P(d[0], d[1])
    q = p._replace(y=d[2])
    e.out('x', [p.x + p.z, list(q), q.y, p == P(d[0], d[1], 7)])

    class N(NamedTuple):
        a: int
        b: bytes = b''
    n = N(d[0])
    e.out('y', [n.a, n.b, list(N(*struct.unpack('<H', d[:2])))])


def f_dataclass(e):
    @dataclass
    class A:
        x: int
        y: bytes = b'q'
        z: list = field(default_factory=list)

        def save(self):
            return struct.pack('<H', self.x) + self.y
    d = e.bytes('d', 3)
    a = A(d[0] * 3)
    a.z.append(d)
    b = dataclasses.replace(a, y=d)
    e.out('x', [a.save(), b.save(), a == A(d[0] * 3, b'q', [d]), list(dataclasses.astuple(b))[:2]])


def f_match(e):
    d = e.bytes('d', 3)
    match d[0]:
        case 0:
            r = 'zero'
        case 1 | 2:
            r = 'low'
        case n if n > 200:
            r = 'high'
        case _:
            r = 'other'
    match (d[1] & 1, d[2]):
        case (0, y):
            q = y
        case (x, 5):
            q = -x
        case _:
            q = None
    e.out('x', [r, q])


def f_match2(e):
    d = e.bytes('d', 4)
    match d[:2]:
        case b'ab':
            r = 1
        case b'cd':
            r = 2
        case _:
            r = 3
    match list(d):
        case [a, b, *rest]:
            q = a + b + len(rest)
    e.out('x', [r, q])


def f_deque(e):
    d = e.bytes('d', 4)
    q = deque(d)
    q.append(9)
    q.appendleft(q.pop())
    x = q.popleft()
    q.rotate(1)
    e.out('x', [x, list(q), len(q)])


def f_defaultdict(e):
    d = e.bytes('d', 3)
    m = defaultdict(list)
    for i, b in enumerate(d):
        m[b & 3].append(i)
    e.out('x', sorted((k, v) for k, v in m.items()))
    c = Counter(x & 1 for x in d)
    e.out('y', [c[0], c[1]])
    o = OrderedDict()
    o['a'] = d[0]
    o['b'] = d[1]
    o.move_to_end('a')
    e.out('z', [list(o), list(o.values())])


def f_setdefault(e):
    d = e.bytes('d', 3)
    m = {}
    for i, b in enumerate(d):
        m.setdefault(b, i)
    e.out('x', [m[b] for b in d])
    e.out('y', [m.get(5, -1), 5 in m, len(m), m.pop(d[0]), len(m)])


def f_itertools(e):
    d = e.bytes('d', 6)
    e.out('x', [list(itertools.chain(d[:2], d[4:])), list(itertools.islice(d, 1, 5, 2)),
                [a + b for a, b in zip(d[::2], d[1::2])], list(itertools.accumulate(d[:3])),
                [list(g) for k, g in itertools.groupby(d, key=lambda v: v & 1)],
                list(itertools.takewhile(lambda v: v < 100, d)), list(itertools.zip_longest(d[:2], d[:1], fillvalue=0)),
                [a * b for a, b in itertools.product(d[:2], repeat=2)], list(itertools.compress(d[:3], [1, 0, 1])),
                list(itertools.starmap(operator.add, [(d[0], 1)])), [x for x, _ in zip(itertools.count(3), d)],
                list(itertools.repeat(d[0], 2)), list(itertools.dropwhile(lambda v: v < 100, d[:2]))])


def f_pairwise(e):
    d = e.bytes('d', 4)
    e.out('x', [b - a for a, b in itertools.pairwise(d)])
    e.out('y', [bytes(t) for t in zip(*[iter(d)] * 2)])


def f_functools(e):
    d = e.bytes('d', 4)
    e.out('x', [reduce(lambda a, b: a << 8 | b, d, 0), reduce(operator.xor, d), partial(pow, 2)(3), sum(map(int, d)),
                functools.reduce(operator.or_, (b << (8 * i) for i, b in enumerate(d)))])


def f_operator(e):
    d = e.bytes('d', 4)
    e.out('x', [operator.itemgetter(1, 2)(d), sorted([(d[0] & 3, 'a'), (d[1] & 3, 'b')], key=operator.itemgetter(0)),
                operator.index(d[0]), operator.attrgetter('real')(3)])


def f_sorted(e):
    d = e.bytes('d', 3)
    e.out('x', [sorted(d), sorted(d, reverse=True), sorted(range(3), key=d.__getitem__), min(d), max(d, default=0),
                sorted(set(d)), sorted({b: 1 for b in d}), min(range(3), key=lambda i: d[i])])
    a = list(d)
    a.sort(key=lambda v: -v)
    e.out('y', a)


def f_bisect(e):
    n = e.int('n', 0, 20)
    e.out('x', [bisect.bisect([3, 6, 9], n), bisect.bisect_left([3, 6, 9], n)])
    a = [3, 6, 9]
    bisect.insort(a, n)
    e.out('y', a)


def f_heapq(e):
    d = e.bytes('d', 3)
    h = []
    for b in d:
        heapq.heappush(h, b)
    e.out('x', [heapq.heappop(h) for _ in range(3)])


def f_math(e):
    n = e.int('n', 0, 1000)
    e.out('x', [math.ceil(n / 4), math.floor(n / 8), -(-n // 4), (n + 3) & ~3, math.gcd(n, 12), n.bit_length(), divmod(n, 7)])
    k = e.int('k', 1, 70000)
    e.out('y', [math.ceil(math.log2(k)) if False else (k - 1).bit_length(), math.isqrt(16)])


def f_round(e):
    n = e.int('n', 0, 1000)
    e.out('x', [round(n / 2) if False else n >> 1, int(n / 4), abs(n - 500), n ** 2, pow(n, 2), pow(n, 3, 7)])


def f_intbytes(e):
    d = e.bytes('d', 4)
    n = int.from_bytes(d, 'little')
    m = int.from_bytes(d[1:3], 'big', signed=True)
    e.out('x', [n, m, n.to_bytes(5, 'big'), m.to_bytes(2, 'little', signed=True), (n & 0xFF).to_bytes(), bytes((n >> 8 * i) & 255 for i in range(4))])


def f_bytesops(e):
    d = e.bytes('d', 4)
    e.out('x', [d + d, d * 2, d[::-1], bytes(reversed(d)), d.ljust(6, b'\0'), d.rjust(6), d.hex(), d.startswith(b'a'), d.endswith((b'a', b'b')),
                d.find(b'a'), d.count(b'a'), d.partition(b'a'), b'-'.join([d[:1], d[2:]]), d.replace(b'a', b'bb'), d.rstrip(b'\0'), d.split(b'\0'),
                d.index(d[2]), b'a' in d, 3 in d, d.center(8, b'*'), d.removeprefix(b'a'), d.strip(b'\0'), d.zfill(6) if False else d])


def f_bytearrayops(e):
    d = e.bytes('d', 4)
    b = bytearray(d)
    b += b'zz'
    b[0:0] = struct.pack('<H', d[1])
    b.insert(1, d[0])
    b.extend(reversed(d))
    del b[-1]
    del b[1:3]
    b.reverse()
    x = b.pop()
    b[2] |= 1
    b[::2] = bytes(len(b[::2]))
    b.remove(0)
    c = bytearray(4)
    c[:] = d
    e.out('x', [bytes(b), x, bytes(c), bytes(c.copy()), bytearray(d) == d])


def f_string(e):
    s = e.str('s', 3, 32, 126)
    e.out('x', [s.upper(), s + 'x', s[::-1], len(s), s.encode('ascii'), s.split('/'), s.replace('a', 'b'), '/'.join([s, s]), s.startswith('a'),
                s.find('b'), 'a' in s, s == 'abc', s.partition('.')[0], s.rpartition('/')[2], s.ljust(5, '-'), s.strip('/'), s.casefold() if False else s])


def f_fstring(e):
    n = e.int('n', 0, 3)
    k = e.concrete(n)
    e.out('x', [f'{k:02x}', '%d-%s' % (k, 'a'), '{:>4}'.format(k), str(k), hex(k)])


def f_comprehensions(e):
    d = e.bytes('d', 4)
    e.out('x', [[b for b in d if b & 1], {i: b for i, b in enumerate(d)}, [(i, j) for i in range(2) for j in range(i)],
                any(b > 250 for b in d), all(b < 250 for b in d), next((i for i, b in enumerate(d) if b == 0), None), sum(1 for b in d if b)])


def f_generators(e):
    d = e.bytes('d', 4)

    def bits(data):
        for b in data:
            for i in range(7, -1, -1):
                yield b >> i & 1

    def both():
        yield from bits(d[:1])
        x = yield 5
        yield x
    e.out('x', [list(bits(d[:2])), list(both())])
    g = iter(d)
    e.out('y', [next(g), next(g), list(g), next(g, None)])


def f_walrus(e):
    d = e.bytes('d', 4)
    i, out = 0, []
    while i < 4 and (b := d[i]) != 0:
        out.append(b)
        i += 1
    else:
        out.append(-1)
    for b in d:
        if b == 7:
            break
    else:
        out.append(-2)
    e.out('x', out)


def f_contextlib(e):
    d = e.bytes('d', 2)
    r = []
    with contextlib.suppress(KeyError, IndexError):
        r.append(d[5])
        r.append(1)

    @contextlib.contextmanager
    def ctx(x):
        r.append(x)
        try:
            yield x + 1
        finally:
            r.append('end')
    with ctx(d[0]) as v, contextlib.ExitStack() as st:
        r.append(v)
    e.out('x', r)


def f_classes(e):
    d = e.bytes('d', 4)

    class Reader:
        __slots__ = ('data', 'pos')

        def __init__(self, data):
            self.data, self.pos = data, 0

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def take(self, fmt):
            s = struct.Struct('<' + fmt)
            r = s.unpack_from(self.data, self.pos)
            self.pos += s.size
            return r[0] if len(r) == 1 else r

        def __iter__(self):
            while self.pos < len(self.data):
                yield self.take('B')

        def __len__(self):
            return len(self.data) - self.pos

        @functools.cached_property if False else property
        def left(self):
            return self.data[self.pos:]
    with Reader(d) as r:
        e.out('x', [r.take('H'), len(r), r.left, list(r), bool(r)])


def f_inherit(e):
    class Base:
        registry = {}

        def __init_subclass__(cls, key=None, **kw):
            super().__init_subclass__(**kw)
            Base.registry[key] = cls

        def __eq__(self, o):
            return type(self) is type(o) and vars(self) == vars(o)
        __hash__ = None

    class A(Base, key=1):
        def __init__(self, x):
            self.x = x

    class B(Base, key=2):
        def __init__(self, x):
            self.y = x + 1
    n = e.int('n', 1, 2)
    d = e.bytes('d', 2)
    o = Base.registry[n](d[0])
    e.out('x', [type(o).__name__, sorted(vars(o).items()), o == A(d[0]), isinstance(o, A), hasattr(o, 'y'), getattr(o, 'x', None)])


def f_enum(e):
    class F(enum.IntFlag):
        A = 1
        B = 2
        C = 4

    class K(enum.IntEnum):
        X = 0
        Y = 1
        Z = 2
    n = e.int('n', 0, 3)
    x = e.raises(ValueError, K, n)
    if x is not None:
        e.out('k', 'none')
    else:
        k = e.result
        e.out('k', [int(k), k.name, k == 1, k in (K.X, K.Y), {K.X: 1, K.Y: 2, K.Z: 3}[k]])
    m = e.int('m', 0, 7)
    e.out('f', [bool(m & F.B), int(F.A | F.C), m | F.C])


def f_table(e):
    t = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = c >> 1 ^ (0xA001 if c & 1 else 0)
        t.append(c)
    d = e.bytes('d', 2)
    crc = 0xFFFF
    for b in d:
        crc = crc >> 8 ^ t[(crc ^ b) & 0xFF]
    u = struct.unpack('<256H', struct.pack('<256H', *t))
    e.out('x', [crc, u[d[0]], tuple(t)[d[1]], dict(enumerate(t))[d[0]], bytes(x & 255 for x in t)[d[1]]])


def f_translate(e):
    d = e.bytes('d', 3)
    t = bytes(range(255, -1, -1))
    e.out('x', [d.translate(t), bytes(map(t.__getitem__, d))])


def f_slices(e):
    d = e.bytes('d', 6)
    s = slice(1, 4)
    n = e.int('n', 0, 6)
    e.out('x', [d[s], d[n:], d[:n], d[-2:], d[n:n + 2], d[-n:] if n else b'', d[6 - n:6][::-1]])
    a = list(d)
    a[1:3] = [9, 9, 9]
    a[::3] = [0] * len(a[::3])
    del a[::2]
    e.out('y', a)


def f_star(e):
    d = e.bytes('d', 5)
    a, *b, c = d
    (x, y), z = d[:2], d[2]
    e.out('x', [a, b, c, x, y, z, [*d[:2], *b], {**{'a': a}, 'b': c}, max(*d[:2])])


def f_try(e):
    d = e.bytes('d', 3)
    r = []
    for i in (1, 5):
        try:
            r.append(d[i])
        except IndexError as x:
            r.append('bad')
        else:
            r.append('ok')
        finally:
            r.append('fin')
    try:
        try:
            {}[d[0]]
        except KeyError as x:
            raise ValueError('no') from x
    except (TypeError, ValueError) as x:
        r.append(str(x))
        r.append(isinstance(x.__cause__, KeyError))
    e.out('x', r)


def f_closure(e):
    d = e.bytes('d', 4)
    pos = 0

    def u8():
        nonlocal pos
        pos += 1
        return d[pos - 1]

    def u16():
        return u8() | u8() << 8
    e.out('x', [u16(), u8(), pos, (lambda a, b=3, *c, k=1: a + b + k)(u8())])


def f_recursion(e):
    d = e.bytes('d', 3)

    def tree(n):
        return (d[n], [tree(i) for i in range(n)]) if n else (d[0], [])
    stack, out = [tree(2)], []
    while stack:
        v, ch = stack.pop()
        out.append(v)
        stack.extend(reversed(ch))
    e.out('x', out)


def f_copy(e):
    d = e.bytes('d', 3)
    a = {'x': [d[0], bytearray(d)], 'y': (1, d)}
    b = copy.deepcopy(a)
    c = copy.copy(a)
    b['x'][1][0] = 9
    c['x'].append(1)
    e.out('x', [bytes(a['x'][1]), bytes(b['x'][1]), len(a['x']), len(b['x'])])


def f_chained(e):
    n, m = e.int('n', 0, 300), e.int('m', 0, 300)
    e.out('x', [0 <= n < 256, n < m < 200, n == m == 5, not n, n and m, n or 7, n if m else -1, n is None, n in (1, 2, m), n not in range(10, 20)])


def f_range(e):
    n = e.int('n', 0, 5)
    e.out('x', [list(range(n)), list(range(n, 8, 3)), list(range(5, n, -1)), len(range(0, n, 2)), n in range(2, 4), [i for i in reversed(range(n))]])


def f_sets(e):
    d = e.bytes('d', 3)
    s = {b & 3 for b in d}
    s |= {7}
    s.discard(0)
    s.add(2)
    e.out('x', [sorted(s), len(s), 2 in s, sorted(s & {1, 7}), sorted(s - {7}), sorted(s ^ {1}), s >= {7}, sorted(frozenset(s) | {9}), s.isdisjoint({100})])


def f_zipdict(e):
    d = e.bytes('d', 4)
    keys = ('a', 'b', 'c')
    v = dict(zip(keys, struct.unpack('<BBH', d)))
    v.update(c=1, **{'e': d[0]})
    v |= {'z': 2}
    e.out('x', [list(v), list(v.values()), sorted(v.items(), key=lambda t: t[0]), 'a' in v, v.pop('a'), v.get('q'), {x: k for k, x in {'a': 1}.items()}])


def f_vars(e):
    class O:
        pass
    d = e.bytes('d', 4)
    o = O()
    for n, v in zip(('a', 'b'), struct.unpack('<HH', d)):
        setattr(o, n, v)
    o.__dict__['c'] = 3
    e.out('x', [o.a, o.b, o.c, sorted(vars(o)), [getattr(o, n) for n in 'abc']])


def f_typing(e):
    x: int = e.int('n', 0, 9)
    y: typing.Optional[bytes] = None
    z = typing.cast(int, x)
    assert x >= 0, f'bad {x}'
    e.out('x', [z, y])


def f_while(e):
    n = e.int('n', 0, 300)
    out = []
    while True:
        out.append(n & 0x7F)
        n >>= 7
        if not n:
            break
    e.out('x', bytes([b | 0x80 for b in out[:0:-1]] + [out[0]]))


def f_xor(e):
    d = e.bytes('d', 4)
    k = e.bytes('k', 4)
    e.out('x', [bytes(a ^ b for a, b in zip(d, k)), (int.from_bytes(d, 'big') ^ int.from_bytes(k, 'big')).to_bytes(4, 'big'),
                bytes(map(operator.xor, d, k)), [~b & 255 for b in d], [(-b) % 256 for b in d], sum(d) % 256, sum(d) & 0xFF])


def f_format(e):
    d = e.bytes('d', 12)
    fmt = f'<{3}H{d and 2}xI'
    e.out('x', [struct.calcsize(fmt), struct.unpack(fmt, d), struct.unpack('<4s?b2xH', d[:10]) if False else 0])
    e.out('y', struct.pack('<4sI8s', b'AB', len(d), d[:3]))


def f_nested(e):
    d = e.bytes('d', 4)

    def make(fmt):
        s = struct.Struct(fmt)

        def inner(data, off=0, *, scale=1):
            return tuple(v * scale for v in s.unpack_from(data, off))
        return inner
    r = {'h': make('<H'), 'b': make('<BB')}
    e.out('x', [r['h'](d), r['b'](d, 1, scale=2), [f(d)[0] for f in r.values()]])


def f_hashkey(e):
    d = e.bytes('d', 2)
    m = {}
    for k in (bytes(d), b'ab', (d[0], 'x')):
        m[k] = len(m)
    e.out('x', [m[b'ab'], m[bytes(d)], len(m), (d[0], 'x') in m, b'zz' in m])


def f_identity(e):
    d = e.bytes('d', 2)
    a, b = [d], [d]
    e.out('x', [a is b, a == b, a[0] is d, id(a) == id(b), d is not None, a.index(d), [d, b'q'].index(b'q') if d != b'q' else 0, a.count(d)])


def f_minmax(e):
    a, b = e.int('a', -5, 5), e.int('b', -5, 5)
    e.out('x', [min(a, b), max(a, b, 0), min([a, b], key=abs), sorted([a, b, 0]), (a > b) - (a < b), abs(a), -a, +b, a // 2, a % 3, divmod(a, 4), a >> 1, a << 2, ~a])


def f_float(e):
    n = e.int('n', 0, 100)
    e.out('x', [int(n * 0.5), n / 2 > 10, int(n * 255 / 31) if False else n, n * 255 // 31])


def f_ternary(e):
    d = e.bytes('d', 2)
    e.out('x', [('lo', 'hi')[d[0] > 127], (0, 31)[bool(d[1])], [7, 8, 9][(d[0] > 10) + (d[1] > 10)], {True: 1, False: 2}[d[0] == 3]])


def f_join(e):
    parts = [e.bytes('a', 2), b'', e.bytes('b', 1)]
    offs = list(itertools.accumulate((len(p) for p in parts), initial=0))
    e.out('x', [b''.join(parts), offs, b''.join(p.ljust(4, b'\xff') for p in parts), b''.join(reversed(parts))])


def f_binascii(e):
    d = e.bytes('d', 2)
    e.out('x', [bytes.fromhex('0aff') + d, d.hex(), string.ascii_lowercase[d[0] % 26]])


def f_stringio(e):
    out = io.StringIO()
    for c in e.str('s', 2, 65, 90):
        out.write(c)
    e.out('x', out.getvalue())


def f_intenumkeys(e):
    d = e.bytes('d', 1)
    table = {0: b'a', 1: b'bb', 2: b'ccc'}
    e.out('x', [table.get(d[0], b''), table[d[0] % 3], list(table)[d[0] % 3]])


def f_conditions(e):
    a, b, c = e.int('a', 0, 9), e.int('b', 0, 9), None
    t = [1, 2, 3]
    out = []
    if a > 3 and b > 4 and not (a == b or a == 7):
        out.append(1)
    else:
        out.append(2)
    if c is not None and c > 3:
        out.append(3)
    if a < 3 and t[a] == 2 or b == 5:
        out.append(4)
    x = 0
    if not a == 3 or b < 2:
        x = 5
    if not t and a:
        x = 7
    y = a if a > b and b else -1
    while a > 5 and x < 7:
        x += 1
    n = 5
    if a and n > b or not n:
        x += 10
    e.out('x', [out, x, y, a and b, b or a, not a, bool(a and not b)])


def f_returns(e):
    def clamp(v, hi):
        """text"""
        if v > hi:
            return hi
        if v < 3:
            return 3
        return v

    def kind(v):
        if v == 0:
            return 'none'
        elif v == 1:
            return 'one'
        else:
            return 'many'

    def pick(t, i):
        if i < len(t):
            return t[i]
        return 0

    def sign(v):
        if v < 0:
            return -1
        elif v > 0:
            return 1
        else:
            return 0

    def early(v):
        if v == 4:
            return
        if v > 4:
            if v == 5:
                return 1
            return 2
        return 0
    n = e.int('n', -5, 40)
    e.out('x', [clamp(n, 31), kind(n), sign(n), early(n), pick([1, 2, 3], abs(n))])


def _table():
    t = []
    for i in range(256):
        for _ in range(8):
            i = (i >> 1) ^ 0xA001 if i & 1 else i >> 1
        t.append(i)
    return tuple(t)


# made by loops that run while the module is imported
_TABLE = _table()


def f_importtable(e):
    crc = 0xFFFF
    for b in e.bytes('d', 3):
        crc = (crc >> 8) ^ _TABLE[(crc ^ b) & 0xFF]
    e.out('crc', crc)


def f_align(e):
    """Ways to round a length up, with many and with few steps."""
    n = e.int('n', 0, 700)
    m = e.choice('m', [4, 100, 0x200])
    how = e.choice('how', ['neg', 'modmod', 'ceil', 'negceil', 'while', 'whileint'])
    d = bytearray(b'ab' + b'\x01' * n)
    if how == 'neg':
        d.extend(b'\xFF' * (-len(d) % m))
    elif how == 'modmod':
        d.extend(b'\xFF' * ((m - len(d) % m) % m))
    elif how == 'ceil':
        d.extend(b'\xFF' * ((len(d) + m - 1) // m * m - len(d)))
    elif how == 'negceil':
        d.extend(b'\xFF' * (-(-len(d) // m) * m - len(d)))
    elif how == 'while':
        if m == 4:
            while len(d) % m: d.append(0xFF)
        else:
            while (len(d) - 1) % m: d.extend(b'\xFF')
    else:
        k = len(d)
        while k % m: k += 1
        d.extend(b'\xFF' * (k - len(d)))
    e.out('x', [len(d), len(d) % m])


PROGRAMS = [v for k, v in sorted(globals().items()) if k.startswith('f_')]
