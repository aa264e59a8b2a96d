"""
Hash-consed bit-vector and boolean terms.

Every symbolic integer, byte and condition that the executed ndspy code
computes is one of these terms.  Terms are simplified structurally when
they are built (mainly slices and concatenations, so that "split a word
into bytes and put it back together" is the identity), evaluated under a
model to replay counterexamples, and translated to z3 for the verdicts.

Bit-vectors are unsigned; width 0 marks a boolean term.  Concatenations
are stored least significant part first.
"""

import z3


class T:
    __slots__ = ('k', 'w', 'a', 'i', 'umax', '_z', 'd')

    def __init__(self, k, w, a, i, umax):
        self.k = k
        self.w = w
        self.a = a
        self.i = i
        self.umax = umax
        self._z = None

    def __repr__(self):
        return f'<{self.k}/{self.w} #{self.i}>'


def _children(t):
    k = t.k
    if k in ('c', 'v', 'T', 'F', 'bv'):
        return ()
    if k in ('bnot', 'rep'):
        return (t.a,)
    if k == 'ex':
        return (t.a[0],)
    if k == 'lin':
        return tuple(x for _, x in t.a[0])
    if k == 'sel' or k == 'tab':
        return (t.a[1],)
    return t.a


_table = {}
_counter = 0


def _mk(k, w, a, umax=None):
    global _counter
    key = (k, w, a)
    t = _table.get(key)
    if t is None:
        _counter += 1
        if umax is None:
            umax = (1 << w) - 1
        t = T(k, w, a, _counter, umax)
        # nesting depth of exclusive-ors
        d = 0
        for x in _children(t):
            if x.d > d:
                d = x.d
        t.d = d + 1 if k == 'xor' else d
        _table[key] = t
    return t


# T objects hash/compare by identity, which is right because of the
# hash-consing.

TRUE = _mk('T', 0, ())
FALSE = _mk('F', 0, ())


def const(v, w):
    v &= (1 << w) - 1
    return _mk('c', w, v, v)


def var(name, w, umax=None):
    t = _mk('v', w, name)
    if umax is not None and umax < t.umax:
        t.umax = umax
    return t


def boolvar(name):
    return _mk('bv', 0, name)


def isconst(t):
    return t.k == 'c'


# ---------------------------------------------------------------------------
# Slicing and concatenation

def extract(t, lo, w):
    """Bits lo .. lo+w-1 of t."""
    if lo == 0 and w == t.w:
        return t
    k = t.k
    if k == 'c':
        return const(t.a >> lo, w)
    if k == 'ex':
        return extract(t.a[0], t.a[1] + lo, w)
    if k == 'cat':
        parts = []
        pos = 0
        end = lo + w
        for p in t.a:
            pend = pos + p.w
            if pend > lo and pos < end:
                s = max(lo, pos)
                e = min(end, pend)
                parts.append(extract(p, s - pos, e - s))
            pos = pend
            if pos >= end:
                break
        return cat(parts)
    if k == 'rep':
        if w == 1:
            return t.a
        return _mk('rep', w, t.a)
    if k in ('and', 'or', 'xor') and w == 1:
        a, b = t.a
        return _BIT[k](extract(a, lo, 1), extract(b, lo, 1))
    if k == 'ite' and (t.a[1].k == 'c' and t.a[2].k == 'c'):
        return ite(t.a[0], extract(t.a[1], lo, w), extract(t.a[2], lo, w))
    um = t.umax >> lo
    if um == 0:
        return const(0, w)
    nb = um.bit_length()
    if nb < w:
        # the high bits are known to be zero
        return cat([extract(t, lo, nb), const(0, w - nb)])
    return _mk('ex', w, (t, lo), um if nb == w else None)


def _base(p):
    if p.k == 'ex':
        return p.a[0], p.a[1]
    return p, 0


def cat(parts):
    """Concatenate, least significant first."""
    out = []
    stack = list(reversed(parts))
    while stack:
        p = stack.pop()
        if p.w == 0:
            raise ValueError('cat of boolean')
        if p.k == 'cat':
            stack.extend(reversed(p.a))
            continue
        if out:
            q = out[-1]
            if q.k == 'c' and p.k == 'c':
                out[-1] = const(q.a | (p.a << q.w), q.w + p.w)
                continue
            if p.k == 'ex':
                pb, pl = p.a
                qb, ql = _base(q)
                if qb is pb and ql + q.w == pl:
                    out[-1] = extract(pb, ql, q.w + p.w)
                    if out[-1].k == 'cat':
                        x = out.pop()
                        stack.extend(reversed(x.a))
                    continue
            elif p.k == 'rep' and q.k == 'rep' and p.a is q.a:
                out[-1] = _mk('rep', p.w + q.w, p.a)
                continue
            elif p.k == 'ite' and q.k == 'ite' and p.a[0] is q.a[0] \
                    and p.a[1].k == p.a[2].k == q.a[1].k == q.a[2].k == 'c':
                out[-1] = ite(p.a[0], cat([q.a[1], p.a[1]]), cat([q.a[2], p.a[2]]))
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    w = 0
    um = 0
    for p in out:
        um |= p.umax << w if p.k == 'c' else ((1 << p.umax.bit_length()) - 1) << w
        w += p.w
    top = out[-1]
    # exact upper bound: all lower parts at max
    um2 = 0
    pos = 0
    for p in out:
        um2 += p.umax << pos
        pos += p.w
    return _mk('cat', w, tuple(out), um2)


def zext(t, w):
    if t.w == w:
        return t
    if t.w > w:
        return extract(t, 0, w)
    return cat([t, const(0, w - t.w)])


def strip(t):
    """Remove known-zero high bits.  Returns a term of minimal width (>=1)."""
    while True:
        if t.k == 'cat' and t.a[-1].k == 'c':
            top = t.a[-1]
            n = top.a.bit_length()
            if n == top.w:
                return t
            if n == 0:
                rest = t.a[:-1]
                t = rest[0] if len(rest) == 1 else cat(list(rest))
            else:
                return cat(list(t.a[:-1]) + [const(top.a, n)])
        elif t.k == 'c':
            n = max(1, t.a.bit_length())
            return const(t.a, n)
        else:
            n = max(1, t.umax.bit_length())
            if n < t.w:
                return extract(t, 0, n)
            return t


def repbit(b, w):
    """1-bit term b repeated w times."""
    if w == 1:
        return b
    if b.k == 'c':
        return const(-(b.a), w)
    return _mk('rep', w, b)


# ---------------------------------------------------------------------------
# Bitwise operations

def _parts(t):
    return t.a if t.k == 'cat' else (t,)


def _runs(v, w):
    """Split constant v into runs of equal bits: [(bit, len)]"""
    out = []
    pos = 0
    while pos < w:
        b = (v >> pos) & 1
        n = 1
        while pos + n < w and ((v >> (pos + n)) & 1) == b:
            n += 1
        out.append((b, n))
        pos += n
    return out


def _bitop(k, a, b):
    w = a.w
    assert w == b.w, (k, a, b)
    if a is b:
        return const(0, w) if k == 'xor' else a
    if a.k == 'c':
        a, b = b, a
    if b.k == 'c':
        if a.k == 'c':
            x, y = a.a, b.a
            return const(x & y if k == 'and' else x | y if k == 'or' else x ^ y, w)
        full = (1 << w) - 1
        v = b.a
        if k == 'and':
            if v == 0:
                return b
            if v == full:
                return a
            parts = []
            pos = 0
            for bit, n in _runs(v, w):
                parts.append(extract(a, pos, n) if bit else const(0, n))
                pos += n
            return cat(parts)
        if k == 'or':
            if v == 0:
                return a
            if v == full:
                return b
            parts = []
            pos = 0
            for bit, n in _runs(v, w):
                parts.append(const(full, n) if bit else extract(a, pos, n))
                pos += n
            return cat(parts)
        if v == 0:
            return a
        if a.k == 'xor' and a.a[1].k == 'c':
            return _bitop('xor', a.a[0], const(a.a[1].a ^ v, w))
        if a.k == 'cat' and any(p.k == 'c' for p in a.a):
            parts = []
            pos = 0
            for p in a.a:
                parts.append(_bitop('xor', p, const(v >> pos, p.w)))
                pos += p.w
            return cat(parts)
        return _mk('xor', w, (a, b))
    # both non-constant: go piecewise where either side has constant parts
    if (a.k == 'cat' and any(p.k == 'c' for p in a.a)) or \
            (b.k == 'cat' and any(p.k == 'c' for p in b.a)):
        cuts = {0, w}
        pos = 0
        for p in _parts(a):
            cuts.add(pos)
            pos += p.w
        pos = 0
        for p in _parts(b):
            cuts.add(pos)
            pos += p.w
        cuts = sorted(cuts)
        parts = []
        # merge runs in which neither side is constant, to keep nodes big
        segs = []
        for s, e in zip(cuts, cuts[1:]):
            pa, pb = extract(a, s, e - s), extract(b, s, e - s)
            c = pa.k == 'c' or pb.k == 'c'
            if segs and not c and not segs[-1][2]:
                segs[-1][1] = e
            else:
                segs.append([s, e, c])
        for s, e, c in segs:
            pa, pb = extract(a, s, e - s), extract(b, s, e - s)
            if c:
                parts.append(_bitop(k, pa, pb))
            else:
                parts.append(_bitnode(k, pa, pb))
        return cat(parts)
    return _bitnode(k, a, b)


def _bitnode(k, a, b):
    if a is b:
        return const(0, a.w) if k == 'xor' else a
    if a.k == 'rep' and b.k == 'rep' and a.w > 1:
        return repbit(_bitop(k, a.a, b.a), a.w)
    if a.i > b.i:
        a, b = b, a
    um = None
    if k == 'and':
        um = min(a.umax, b.umax)
    else:
        um = (1 << max(a.umax.bit_length(), b.umax.bit_length())) - 1
    return _mk(k, a.w, (a, b), um)


def and_(a, b):
    return _bitop('and', a, b)


def or_(a, b):
    return _bitop('or', a, b)


def xor(a, b):
    return _bitop('xor', a, b)


_BIT = {'and': and_, 'or': or_, 'xor': xor}


def not_(a):
    return xor(a, const(-1, a.w))


# ---------------------------------------------------------------------------
# Arithmetic (modulo 2**w)

def lin(w, terms, c):
    """sum k_i * t_i + c modulo 2**w; the t_i are unsigned, any width."""
    m = (1 << w) - 1
    acc = {}
    c &= m
    stack = list(terms)
    while stack:
        k, t = stack.pop()
        k &= m
        if k == 0:
            continue
        if t.k == 'c':
            c = (c + k * t.a) & m
            continue
        if t.k == 'lin' and t.w >= w:
            ts, c2 = t.a
            c = (c + k * c2) & m
            stack.extend((k * k2, t2) for k2, t2 in ts)
            continue
        t = strip(t)
        if t.w > w:
            t = extract(t, 0, w)
            t = strip(t)
        if t.k == 'c':
            c = (c + k * t.a) & m
            continue
        acc[t] = (acc.get(t, 0) + k) & m
    items = sorted(((k, t) for t, k in acc.items() if k), key=lambda e: e[1].i)
    if not items:
        return const(c, w)
    # Disjoint placement => concatenation
    place = []
    ok = True
    for k, t in items:
        if k & (k - 1) == 0:
            place.append((k.bit_length() - 1, t.w, t, False))
        elif t.w == 1 and (k | (k - 1)) == m and (((m ^ k) + 1) & ((m ^ k))) == 0:
            # k = -2**j: sign bit repeated
            j = (k & -k).bit_length() - 1
            place.append((j, w - j, t, True))
        else:
            ok = False
            break
    if ok:
        place.sort(key=lambda e: e[0])
        pos = 0
        parts = []
        used = 0
        for j, n, t, r in place:
            n = min(n, w - j)
            if j < pos:
                ok = False
                break
            if j > pos:
                parts.append(const(0, j - pos))
            parts.append(repbit(t, n) if r else extract(t, 0, n))
            used |= ((1 << n) - 1) << j
            pos = j + n
        if ok and (used & c) == 0:
            if pos < w:
                parts.append(const(0, w - pos))
            t = cat(parts)
            return or_(t, const(c, w)) if c else t
    um = c
    for k, t in items:
        um += k * t.umax
    return _mk('lin', w, (tuple(items), c), um if um <= m else m)


def add(a, b):
    return lin(a.w, [(1, a), (1, b)], 0)


def sub(a, b):
    return lin(a.w, [(1, a), (-1, b)], 0)


def mul(a, b):
    w = a.w
    assert w == b.w
    if a.k == 'c':
        a, b = b, a
    if b.k == 'c':
        return lin(w, [(b.a, a)], 0)
    if a.i > b.i:
        a, b = b, a
    return _mk('mul', w, (a, b), min((1 << w) - 1, a.umax * b.umax))


def udiv(a, b):
    """Unsigned division; b must be known nonzero."""
    w = a.w
    if b.k == 'c':
        if a.k == 'c':
            return const(a.a // b.a, w)
        n = b.a
        if n & (n - 1) == 0:
            s = n.bit_length() - 1
            return zext(extract(a, s, w - s), w) if s < w else const(0, w)
        return _mk('udiv', w, (a, b), a.umax // n)
    return _mk('udiv', w, (a, b), a.umax)


def urem(a, b):
    w = a.w
    if b.k == 'c':
        if a.k == 'c':
            return const(a.a % b.a, w)
        n = b.a
        if n & (n - 1) == 0:
            s = n.bit_length() - 1
            return zext(extract(a, 0, s), w) if s else const(0, w)
        return _mk('urem', w, (a, b), min(a.umax, n - 1))
    return _mk('urem', w, (a, b), min(a.umax, b.umax))


def shl(a, n):
    """Shift by a term amount."""
    if n.k == 'c':
        s = n.a
        if s >= a.w:
            return const(0, a.w)
        return cat([const(0, s), extract(a, 0, a.w - s)]) if s else a
    return _mk('shl', a.w, (a, zext(n, a.w)))


def lshr(a, n):
    if n.k == 'c':
        s = n.a
        if s >= a.w:
            return const(0, a.w)
        return zext(extract(a, s, a.w - s), a.w) if s else a
    return _mk('lshr', a.w, (a, zext(n, a.w)), a.umax)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.w == 0:
        return or_b([and_b([c, a]), and_b([not_b(c), b])])
    if c.k == 'bnot':
        return ite(c.a, b, a)
    if a.w == 1 and a.k == 'c' and b.k == 'c' and c.k == 'eq':
        # single bit conditions turn back into the bit itself
        x, y = c.a
        if x.w == 1 and y.k == 'c':
            bit = x if y.a else not_(x)
            return bit if a.a else not_(bit)
    if b.k == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a.k == 'ite' and a.a[0] is c:
        a = a.a[1]
    return _mk('ite', a.w, (c, a, b), max(a.umax, b.umax))


def sel(arr, idx):
    """Byte number idx (32-bit term) of the opaque blob named arr."""
    return _mk('sel', 8, (arr, idx))


def tab(table, w, idx):
    """table[idx] for a tuple of constants (all < 2**w); idx in range."""
    if idx.k == 'c':
        return const(table[idx.a], w)
    if len(table) >= 32:
        sel = _selection(table)
        if sel is not None and 1 << idx.umax.bit_length() <= len(table):
            # every bit of the entries is a bit of the index or constant
            return cat([const(s[1], 1) if s[0] is None else
                        extract(idx, s[0], 1) if not s[1] else xor(extract(idx, s[0], 1), const(1, 1))
                        for s in (sel + [(None, 0)] * w)[:w]])
    return _mk('tab', w, (table, idx), max(table))


_sel = {}


def _selection(table):
    """Per bit of the entries: (number of the index bit it equals or None, flipped)."""
    if table in _sel:
        return _sel[table]
    n = len(table).bit_length() - 1
    r = None
    if len(table) == 1 << n:
        base = table[0]
        cols = [table[1 << i] ^ base for i in range(n)]
        lin_ = [base]
        for c in cols:
            lin_ += [v ^ c for v in lin_]
        if tuple(lin_) == table:
            r = []
            for b in range(max(table).bit_length()):
                src = [i for i in range(n) if cols[i] >> b & 1]
                if len(src) > 1:
                    r = None
                    break
                r.append((src[0] if src else None, base >> b & 1))
    _sel[table] = r
    return r


# ---------------------------------------------------------------------------
# Booleans

def not_b(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.k == 'bnot':
        return c.a
    return _mk('bnot', 0, c)


def and_b(cs):
    out = {}
    stack = list(reversed(cs))
    while stack:
        c = stack.pop()
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.k == 'band':
            stack.extend(reversed(c.a))
            continue
        out[c] = None
    for c in out:
        if c.k == 'bnot' and c.a in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mk('band', 0, tuple(out))


def or_b(cs):
    out = {}
    stack = list(reversed(cs))
    while stack:
        c = stack.pop()
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.k == 'bor':
            stack.extend(reversed(c.a))
            continue
        out[c] = None
    for c in out:
        if c.k == 'bnot' and c.a in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return _mk('bor', 0, tuple(out))


def eq(a, b):
    if a is b:
        return TRUE
    if a.w != b.w:
        w = max(a.w, b.w)
        a, b = zext(a, w), zext(b, w)
        if a is b:
            return TRUE
    if a.k == 'c':
        a, b = b, a
    if b.k == 'c':
        if a.k == 'c':
            return TRUE if a.a == b.a else FALSE
        if b.a > a.umax:
            return FALSE
        if a.k == 'ite':
            c, x, y = a.a
            if x.k == 'c' or y.k == 'c':
                return or_b([and_b([c, eq(x, b)]), and_b([not_b(c), eq(y, b)])])
        if a.k == 'rep':
            if b.a == 0:
                return eq(a.a, const(0, 1))
            if b.a == (1 << b.w) - 1:
                return eq(a.a, const(1, 1))
            return FALSE
        if a.k == 'xor' and a.a[1].k == 'c':
            return eq(a.a[0], const(b.a ^ a.a[1].a, b.w))
    if a.k == 'cat' or b.k == 'cat':
        # split at every boundary of either side
        cuts = {a.w}
        pos = 0
        for p in _parts(a):
            cuts.add(pos)
            pos += p.w
        pos = 0
        for p in _parts(b):
            cuts.add(pos)
            pos += p.w
        cuts = sorted(cuts)
        cs = []
        for s, e in zip(cuts, cuts[1:]):
            c = eq(extract(a, s, e - s), extract(b, s, e - s))
            if c is FALSE:
                return FALSE
            cs.append(c)
        return and_b(cs)
    if a.w == 1 and b.k == 'c' and b.a == 0:
        return not_b(eq(a, const(1, 1)))
    if a.i > b.i and b.k != 'c':
        a, b = b, a
    if (a.d > DEEP or b.d > DEEP) and not (a.w == 1 and b.k == 'c'):
        return _affeq(a, b)
    return _mk('eq', 0, (a, b))


def settle(t):
    """Simplify the tests of single deep bits that eq() left alone."""
    if t.d <= DEEP:
        return t
    if t.k == 'eq':
        return _affeq(*t.a) if t.a[0].w == 1 and t.a[1].k == 'c' else t
    if t.k == 'bnot':
        return not_b(settle(t.a))
    if t.k == 'band':
        return and_b([settle(x) for x in t.a])
    if t.k == 'bor':
        return or_b([settle(x) for x in t.a])
    return t


# ---------------------------------------------------------------------------
# Affine normal form.  Checksums are long chains of exclusive-ors, shifts and
# conditional exclusive-ors, hopeless for bit-blasting but affine over GF(2):
# each bit is the exclusive-or of a set of atom bits and a constant.  A bit is
# kept as an integer: bit 0 the constant, bit n+1 whether atom n occurs.

DEEP = 12
_atoms = {}
_atomlist = []
_aff = {}


def _atom(t, i):
    key = (t, i)
    n = _atoms.get(key)
    if n is None:
        n = _atoms[key] = len(_atomlist)
        _atomlist.append(key)
    return 1 << (n + 1)


def aff(t):
    """The bits of t, least significant first (one for a boolean)."""
    r = _aff.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _aff:
            stack.pop()
            continue
        todo = [y for y in _children(x) if y not in _aff] if x.d else ()
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        _aff[x] = _affstep(x)
    return _aff[t]


def _affstep(t):
    k, w, a = t.k, t.w, t.a
    if k == 'c':
        return [a >> i & 1 for i in range(w)]
    if k == 'T':
        return [1]
    if k == 'F':
        return [0]
    if k == 'ex':
        if a[0] in _aff:
            return _aff[a[0]][a[1]:a[1] + w]
        return [_atom(a[0], a[1] + i) for i in range(w)]
    if k == 'cat':
        return [b for p in a for b in aff(p)]
    if k == 'rep':
        return aff(a) * w
    if k == 'xor':
        return [x ^ y for x, y in zip(aff(a[0]), aff(a[1]))]
    if k in ('and', 'or'):
        out = []
        for i, (x, y) in enumerate(zip(aff(a[0]), aff(a[1]))):
            if y < 2 or x == y:
                x, y = y, x
            if x == y:
                out.append(x)
            elif x < 2:
                out.append((y if x else 0) if k == 'and' else (1 if x else y))
            else:
                out.append(_atom(t, i))
        return out
    if k == 'bnot':
        return [aff(a)[0] ^ 1]
    if k == 'eq' and a[0].w == 1:
        return [aff(a[0])[0] ^ aff(a[1])[0] ^ 1]
    if k == 'ite' and w:
        c = aff(a[0])[0]
        out = []
        for i, (x, y) in enumerate(zip(aff(a[1]), aff(a[2]))):
            z = x ^ y
            out.append(y if z == 0 else y ^ c if z == 1 else
                       (x if c else y) if c < 2 else _atom(t, i))
        return out
    if k == 'lin' and len(a[0]) == 1 and a[1] == 0 and a[0][0][1].umax <= 1:
        b = aff(a[0][0][1])[0]
        return [b if a[0][0][0] >> i & 1 else 0 for i in range(w)]
    if k == 'tab':
        table, idx = a
        n = idx.umax.bit_length()
        if 1 << n <= len(table):
            base = table[0]
            cols = [table[1 << i] ^ base for i in range(n)]
            lin_ = [base]
            for c in cols:
                lin_ += [v ^ c for v in lin_]
            if tuple(lin_) == tuple(table[:1 << n]):
                bits = aff(idx)
                out = []
                for i in range(w):
                    v = base >> i & 1
                    for j in range(n):
                        if cols[j] >> i & 1:
                            v ^= bits[j]
                    out.append(v)
                return out
    return [_atom(t, i) for i in range(w or 1)]


def _affeq(a, b):
    cs = []
    for x, y in zip(aff(a), aff(b)):
        z = x ^ y
        if z == 0:
            continue
        if z == 1:
            return FALSE
        t = const(0, 1)
        n = z >> 1
        while n:
            low = n & -n
            base, i = _atomlist[low.bit_length() - 1]
            n ^= low
            t = xor(t, extract(base, i, 1) if base.w else ite(base, const(1, 1), const(0, 1)))
        if t.k == 'c':
            if t.a != (z & 1):
                return FALSE
            continue
        cs.append(_mk('eq', 0, (t, const(z & 1, 1))))
    return and_b(cs)


def ult(a, b):
    if a.w != b.w:
        w = max(a.w, b.w)
        a, b = zext(a, w), zext(b, w)
    if a is b:
        return FALSE
    if b.k == 'c':
        if b.a == 0:
            return FALSE
        if a.umax < b.a:
            return TRUE
        if b.a == 1:
            return eq(a, const(0, a.w))
        if a.k == 'c':
            return TRUE if a.a < b.a else FALSE
        n = b.a
        if n & (n - 1) == 0:
            # a < 2**s  <=>  high bits are zero
            s = n.bit_length() - 1
            h = extract(a, s, a.w - s)
            return eq(h, const(0, a.w - s))
        return _mk('ult', 0, (a, b))
    if a.k == 'c':
        if a.a >= b.umax:
            return FALSE
        return not_b(ult(b, const(a.a + 1, a.w)))
    return _mk('ult', 0, (a, b))


def ule(a, b):
    return not_b(ult(b, a))


# ---------------------------------------------------------------------------
# Evaluation under a model

class Model:
    """Values for variables; blob bytes are given by `blobs[name](index)`."""

    def __init__(self, vals, blob=None):
        self.vals = vals
        self.blob = blob

    def ev(self, t):
        return evaluate(t, self)


def evaluate(t, model, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    stack = [t]
    vals = model.vals
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        ch = _children(x)
        todo = [y for y in ch if y not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        k = x.k
        m = (1 << x.w) - 1
        if k == 'c':
            r = x.a
        elif k == 'v':
            r = vals.get(x.a, 0) & m
        elif k == 'bv':
            r = bool(vals.get(x.a, False))
        elif k == 'T':
            r = True
        elif k == 'F':
            r = False
        elif k == 'ex':
            r = (memo[x.a[0]] >> x.a[1]) & m
        elif k == 'cat':
            r = 0
            pos = 0
            for p in x.a:
                r |= memo[p] << pos
                pos += p.w
        elif k == 'rep':
            r = m if memo[x.a] else 0
        elif k == 'and':
            r = memo[x.a[0]] & memo[x.a[1]]
        elif k == 'or':
            r = memo[x.a[0]] | memo[x.a[1]]
        elif k == 'xor':
            r = memo[x.a[0]] ^ memo[x.a[1]]
        elif k == 'lin':
            r = x.a[1]
            for c, y in x.a[0]:
                r += c * memo[y]
            r &= m
        elif k == 'mul':
            r = (memo[x.a[0]] * memo[x.a[1]]) & m
        elif k == 'udiv':
            d = memo[x.a[1]]
            r = memo[x.a[0]] // d if d else m
        elif k == 'urem':
            d = memo[x.a[1]]
            r = memo[x.a[0]] % d if d else memo[x.a[0]]
        elif k == 'shl':
            s = memo[x.a[1]]
            r = (memo[x.a[0]] << s) & m if s < x.w else 0
        elif k == 'lshr':
            s = memo[x.a[1]]
            r = memo[x.a[0]] >> s if s < x.w else 0
        elif k == 'ite':
            r = memo[x.a[1]] if memo[x.a[0]] else memo[x.a[2]]
        elif k == 'sel':
            r = model.blob(x.a[0], memo[x.a[1]])
        elif k == 'tab':
            i = memo[x.a[1]]
            r = x.a[0][i] if i < len(x.a[0]) else 0
        elif k == 'bnot':
            r = not memo[x.a]
        elif k == 'band':
            r = all(memo[y] for y in x.a)
        elif k == 'bor':
            r = any(memo[y] for y in x.a)
        elif k == 'eq':
            r = memo[x.a[0]] == memo[x.a[1]]
        elif k == 'ult':
            r = memo[x.a[0]] < memo[x.a[1]]
        else:
            raise NotImplementedError(k)
        memo[x] = r
    return memo[t]


# ---------------------------------------------------------------------------
# Translation to z3

_arrays = {}


def _arr(name):
    a = _arrays.get(name)
    if a is None:
        a = z3.Array('blob!' + name, z3.BitVecSort(32), z3.BitVecSort(8))
        _arrays[name] = a
    return a


def toz3(t):
    if t._z is not None:
        return t._z
    stack = [t]
    while stack:
        x = stack[-1]
        if x._z is not None:
            stack.pop()
            continue
        todo = [y for y in _children(x) if y._z is None]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        k = x.k
        a = x.a
        if k == 'c':
            r = z3.BitVecVal(a, x.w)
        elif k == 'v':
            r = z3.BitVec(a, x.w)
        elif k == 'bv':
            r = z3.Bool(a)
        elif k == 'T':
            r = z3.BoolVal(True)
        elif k == 'F':
            r = z3.BoolVal(False)
        elif k == 'ex':
            r = z3.Extract(a[1] + x.w - 1, a[1], a[0]._z)
        elif k == 'cat':
            r = z3.Concat(*[p._z for p in reversed(a)])
        elif k == 'rep':
            r = z3.SignExt(x.w - 1, a._z)
        elif k == 'and':
            r = a[0]._z & a[1]._z
        elif k == 'or':
            r = a[0]._z | a[1]._z
        elif k == 'xor':
            r = a[0]._z ^ a[1]._z
        elif k == 'lin':
            r = None
            for c, y in a[0]:
                z = y._z
                if y.w < x.w:
                    z = z3.ZeroExt(x.w - y.w, z)
                neg = c >> (x.w - 1) and ((1 << x.w) - c) & ((1 << x.w) - c - 1) == 0
                if neg:
                    c2 = (1 << x.w) - c
                    if c2 != 1:
                        z = z3.BitVecVal(c2, x.w) * z
                    r = -z if r is None else r - z
                else:
                    if c != 1:
                        z = z3.BitVecVal(c, x.w) * z
                    r = z if r is None else r + z
            if a[1]:
                r = r + z3.BitVecVal(a[1], x.w)
        elif k == 'mul':
            r = a[0]._z * a[1]._z
        elif k == 'udiv':
            r = z3.UDiv(a[0]._z, a[1]._z)
        elif k == 'urem':
            r = z3.URem(a[0]._z, a[1]._z)
        elif k == 'shl':
            r = a[0]._z << a[1]._z
        elif k == 'lshr':
            r = z3.LShR(a[0]._z, a[1]._z)
        elif k == 'ite':
            r = z3.If(a[0]._z, a[1]._z, a[2]._z)
        elif k == 'sel':
            idx = a[1]._z
            r = z3.Select(_arr(a[0]), idx)
        elif k == 'tab':
            r = _tabz3(a[0], x.w, a[1])
        elif k == 'bnot':
            r = z3.Not(a._z)
        elif k == 'band':
            r = z3.And(*[y._z for y in a])
        elif k == 'bor':
            r = z3.Or(*[y._z for y in a])
        elif k == 'eq':
            r = a[0]._z == a[1]._z
        elif k == 'ult':
            r = z3.ULT(a[0]._z, a[1]._z)
        else:
            raise NotImplementedError(k)
        x._z = r
    return t._z


def _tabz3(table, w, idx):
    z = idx._z
    n = idx.w

    def build(lo, bits):
        if lo >= len(table):
            return z3.BitVecVal(0, w)
        if bits == 0:
            return z3.BitVecVal(table[lo], w)
        chunk = table[lo:lo + (1 << bits)]
        if len(set(chunk)) == 1 and len(chunk) == (1 << bits):
            return z3.BitVecVal(chunk[0], w)
        h = 1 << (bits - 1)
        return z3.If(z3.Extract(bits - 1, bits - 1, z) == 1,
                     build(lo + h, bits - 1), build(lo, bits - 1))
    return build(0, n)


def reset():
    """Forget all terms (between independent cases)."""
    global _counter
    _table.clear()
    _arrays.clear()
    _atoms.clear()
    _atomlist.clear()
    _aff.clear()
    for t in (TRUE, FALSE):
        t._z = None
        _table[(t.k, 0, ())] = t


def variables(ts):
    """All variable and blob-read terms in the given terms."""
    seen = set()
    out = []
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k in ('v', 'bv', 'sel'):
            out.append(x)
        stack.extend(_children(x))
    return out
