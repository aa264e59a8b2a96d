"""LZ formats as documented, written independently of the package."""


def lz10(e, s):
    """Strict LZ10 decoder: checks the stream and returns its data."""
    e.check(len(s) >= 4, 'LZ10 stream has a header')
    e.check_eq(s[0], 0x10, 'LZ10 marker byte')
    size = s[1] | s[2] << 8 | s[3] << 16
    size = e.concrete(size)
    out = bytearray()
    p = 4
    while len(out) < size:
        e.check(p < len(s), 'LZ10 stream is not cut short (flags)')
        flags = s[p]
        p += 1
        for i in range(8):
            if len(out) >= size:
                break
            if (flags >> (7 - i)) & 1:
                e.check(p + 2 <= len(s), 'LZ10 stream is not cut short (reference)')
                hi, lo = s[p], s[p + 1]
                p += 2
                n = e.concrete((hi >> 4) + 3)
                disp = e.concrete(((hi & 15) << 8) + lo + 1)
                e.check(disp <= len(out), 'LZ10 reference stays inside the data')
                e.check(len(out) + n <= size, 'LZ10 reference ends inside the data')
                for _ in range(n):
                    out.append(out[len(out) - disp])
            else:
                e.check(p < len(s), 'LZ10 stream is not cut short (literal)')
                out.append(s[p])
                p += 1
    return bytes(out)


def blz(e, s):
    """Strict decoder for backward LZ code files (no appended data)."""
    total = len(s)
    e.check(total >= 8, 'code file has a footer')
    extra = s[total - 4] | s[total - 3] << 8 | s[total - 2] << 16 | s[total - 1] << 24
    extra = e.concrete(extra)
    if extra == 0:
        return bytes(s)
    hlen = e.concrete(s[total - 5])
    clen = e.concrete(s[total - 8] | s[total - 7] << 8 | s[total - 6] << 16)
    e.check(8 <= hlen <= 11, 'footer length is 8 to 11')
    e.check(hlen <= clen <= total, 'compressed region lies in the file')
    for i in range(total - hlen, total - 8):
        e.check_eq(s[i], 0xFF, 'footer padding is 0xFF')
    front = total - clen
    p = total - hlen - 1          # next byte to read, moving down
    size = total + extra - front  # bytes to produce, last one first
    out = bytearray()
    while len(out) < size:
        e.check(p >= front, 'code stream is not cut short (flags)')
        flags = s[p]
        p -= 1
        for i in range(8):
            if len(out) >= size:
                break
            if (flags >> (7 - i)) & 1:
                e.check(p - 1 >= front, 'code stream is not cut short (reference)')
                hi, lo = s[p], s[p - 1]
                p -= 2
                n = e.concrete((hi >> 4) + 3)
                disp = e.concrete(((hi & 15) << 8) + lo + 3)
                e.check(disp <= len(out), 'code reference stays inside the data')
                e.check(len(out) + n <= size, 'code reference ends inside the data')
                for _ in range(n):
                    out.append(out[len(out) - disp])
            else:
                e.check(p >= front, 'code stream is not cut short (literal)')
                out.append(s[p])
                p -= 1
    out.reverse()
    return bytes(s[:front]) + bytes(out)


def no_footer(e, d, first=0):
    """Nothing near the end of d looks like the footer of a compressed file."""
    out = []
    for amt in range(first, 0x20, 4):
        p = len(d) - amt - 8
        if p < 0:
            break
        comp = d[p] | d[p + 1] << 8 | d[p + 2] << 16
        hlen = d[p + 3]
        bad = [hlen < 8, comp > len(d)]
        for i in range(p - 1, -1, -1):
            # d[i] is part of the padding when the footer is long enough
            bad.append(e.all([hlen >= p + 8 - i, d[i] != 0xFF]))
        out.append(e.any(bad))
    return e.all(out)


# ---------------------------------------------------------------------------
# Families of inputs

def filler(n, alphabet=24):
    """n bytes in which no three-byte string occurs twice."""
    seen = set()
    out = [0, 0]
    while len(out) < n:
        for b in range(alphabet - 1, -1, -1):
            t = (out[-2], out[-1], b)
            if t not in seen:
                break
        seen.add(t)
        out.append(b)
    return bytes(out[:n])


def some(e, k):
    """k bytes: the first one free, the others 200 or more."""
    return bytes([e.int('u0', 0, 255)] + [e.int(f'u{i}', 200, 255) for i in range(1, k)])


def family(e, kind, n, k=3):
    """Input data of a named shape; its bytes are symbolic."""
    if kind == 'any':
        return e.bytes('d', n)
    if kind == 'periodic':            # k free bytes repeated
        u = e.bytes('u', k)
        return (u * (n // k + 1))[:n]
    if kind == 'pqp':                 # P, other bytes, P again
        u = some(e, k)
        return u + bytes(range(100, 100 + n)) + u
    if kind == 'ppqp':
        u = some(e, k)
        return u + u + bytes(range(100, 100 + n)) + u + bytes([7]) + u[1:]
    if kind == 'tail':                # literals, then a run, then literals
        u = some(e, k)
        return bytes(range(50, 50 + n)) + u[:1] * 20 + u[1:] + bytes(range(50, 50 + n))
    if kind == 'window':              # P, n bytes of filler, P again
        cs = [e.int(f'p{i}', 200, 255) for i in range(2)]
        u = bytes([cs[0], 190, cs[1], 191] + list(range(150, 150 + k)))
        return u + filler(n) + u
    if kind == 'zwindow':             # the same with a filler of zeros
        u = bytes([e.int('p0', 200, 255)] + list(range(100, 116)) + [e.int('p1', 200, 255)])
        return u + bytes(n) + u + bytes([k])
    if kind == 'longest':             # matches of exactly n bytes
        u = bytes([e.int('p0', 200, 255)]) + bytes(range(100, 100 + n - 1))
        return u + b'\x01' + u + b'\x02' + u[:n - 1] + b'\x03' + u[1:]
    if kind == 'large':               # zeros, n bytes of filler, free bytes
        return bytes(n // 3) + filler(n, 42) + bytes([e.int('p0', 200, 255), 100, e.int('p1', 200, 255)])
    raise ValueError(kind)


def cases(tier, window):
    """(kind, n, k) of the structured families."""
    q = tier == 'quick'
    out = []
    for n in range(0, 7 if q else 9):
        out.append(('any', n, 0))
    for k in (1, 2, 3):
        ns = [8, 9, 16, 17, 18, 19, 20, 21, 24, 33, 36, 37, 40, 55, 64, 73] if q else range(7, 120)
        for n in ns:
            out.append(('periodic', n, k))
    for n in ([0, 1, 4, 5, 6, 12, 13, 30] if q else range(0, 40)):
        out.append(('pqp', n, 3))
        out.append(('ppqp', n, 4))
    for n in ([0, 3, 7, 8, 9, 15] if q else range(0, 20)):
        out.append(('tail', n, 3))
    for n in ([16, 17, 18, 19, 20] if q else range(3, 24)):
        out.append(('longest', n, 0))
    for d in ([-1, 0, 1] if q else range(-6, 7)):
        for k in ((3, 14) if q else (0, 3, 13, 14, 15)):
            out.append(('window', window + d - 4 - k, k))
    for d in ([-1, 0, 1, 2] if q else range(-20, 21)):
        out.append(('zwindow', window + d - 18, 1))
    # sizes that take more than 16 bits, before and after compression
    out.append(('zwindow', 0x10000, 1))
    out.append(('large', 66000, 0))
    return out


def ticks(n):
    return 400000 + 200 * n


DESCR = {
    'any': 'every byte string of length {n}',
    'periodic': 'every string of {k} bytes repeated to length {n}',
    'pqp': 'every 3-byte string (all but the first byte 200 or more), {n} fixed bytes, the same string again',
    'ppqp': 'every 4-byte string (all but the first byte 200 or more) twice, {n} fixed bytes, the string again, its tail again',
    'tail': '{n} fixed bytes, a run of any byte, 2 bytes of 200 or more, the fixed bytes again',
    'longest': 'matches around length {n} with a free first byte',
    'zwindow': '18 bytes (2 free) repeated at distance {n}+18 with zeros between',
    'large': '{n} bytes without repeats between a third as many zeros and 3 bytes (2 free)',
    'window': '{k}+4 bytes (2 free) repeated at distance {n}+{k}+4',
}


# ---------------------------------------------------------------------------
# How small it gets

def greedy(d, window):
    """Size of d in flag groups when every position uses the longest repeat (3
    to 18 bytes lying before it, at most window bytes back) there is."""
    size = pos = tokens = 0
    while pos < len(d):
        if tokens % 8 == 0:
            size += 1
        tokens += 1
        n = 1
        for k in range(min(18, len(d) - pos), 2, -1):
            if d.find(d[pos:pos + k], max(0, pos - window), pos) != -1:
                n = k
                break
        size += 1 if n == 1 else 2
        pos += n
    return size, tokens
