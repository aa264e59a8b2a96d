"""L04: code decompression follows the backward LZ format."""

import ndspy.codeCompression as cc
from refs import lz

ASSUMPTIONS = [
    'files to decompress: the listed sequences of literals (L) and references (R), with any literal '
    'bytes, lengths 3..18 and displacements inside the data, 0..3 padding bytes, 0..5 leading bytes',
    'uncompressed data: the listed lengths with 8 or 12 free bytes at the listed places, other bytes zero, '
    'where no plausible footer occurs']


def cases(tier):
    for kind, n, k in lz.cases(tier, 0x1002):
        if kind == 'any' or n < 33 and kind != 'tail' or kind in ('pqp', 'window'):
            continue
        yield dict(name=f'enc-{kind}-{n}-{k}', fn='encoder', args={'kind': kind, 'n': n, 'k': k}, ticks=lz.ticks(n),
                   bounds=lz.DESCR[kind].format(n=n, k=k))
    shapes = ['LLLR', 'LLLLR', 'LLLRL', 'LLLRR', 'LLLLLLLR', 'LLLLLLLLR', 'LLLLLLLLLLLLLLLLR']
    if tier != 'quick':
        shapes += ['LLLLRLLLR', 'LLLLLLLLLRLLLLLLRL', 'LLLLRRL', 'LLLLLLLRR']
    for s in shapes:
        yield dict(name='dec-' + s, fn='decoder', args={'shape': s, 'trail': 0},
                   bounds=f'every stream of the form {s}')
    yield dict(name='dec-trailer', fn='decoder', args={'shape': 'LLLR', 'trail': 12},
               bounds='a compressed file followed by the 12-byte ARM9 trailer')
    for n in range(4, 32, 4):
        yield dict(name=f'dec-appended-{n}', fn='appended', args={'n': n},
                   bounds=f'a compressed file followed by {n} bytes, three of four free, the others 0 to 7')
    yield dict(name='dec-front', fn='front', bounds='a compressed file behind 0x10003 bytes that are not compressed')
    yield dict(name='dec-large', fn='large', ticks=5000000, bounds='a compressed part of more than 64 KiB')
    for n in (list(range(0, 14)) + [16, 19, 24, 31, 35, 36, 37] if tier == 'quick' else range(0, 50)):
        for at in range(n, max(0, n - 28) - 1, -4):
            if at == n or at >= 8:
                w = 12 if n < (20 if tier == 'quick' else 28) else 8
                yield dict(name=f'plain-{n}-{at}', fn='plain', args={'n': n, 'at': at, 'w': w},
                           bounds=f'{n} bytes, any {w} bytes ending at {at}, without a plausible footer')
    for n in (12, 16, 19, 24, 40):
        yield dict(name=f'zero-{n}', fn='zero', args={'n': n},
                   bounds=f'every string of {n} bytes with a plausible footer and extra size 0')
    yield dict(name='far', fn='far', bounds='references with displacement 0x1000..0x1002, any length')


def encoder(e, kind, n, k):
    d = lz.family(e, kind, n, k)
    c = cc.compress(d)
    if len(c) < len(d):
        e.check_eq(lz.blz(e, c), d, 'an independent decoder recovers the data')
    else:
        e.check(len(c) <= len(d) + 7, 'data that does not shrink is stored')


def build(e, toks, want, enc):
    """Encode tokens; enc collects bytes in reading order."""
    for g in range(0, len(toks), 8):
        part = toks[g:g + 8]
        flags = 0
        bs = []
        for i, t in enumerate(part):
            if t == 'L':
                b = e.int(f'l{g + i}', 0, 255)
                bs.append(b)
                want.append(b)
            else:
                n = e.pick(f'n{g + i}', 3, 18)
                disp = e.pick(f'd{g + i}', 3, min(len(want), 9)) if len(want) < 14 else 14
                flags |= 0x80 >> i
                bs.append((n - 3) << 4 | (disp - 3) >> 8)
                bs.append((disp - 3) & 0xFF)
                for _ in range(n):
                    want.append(want[-disp])
        enc.append(flags)
        enc += bs


def assemble(front, enc, want, pad):
    hlen = 8 + pad
    comp = len(enc) + hlen
    total = len(front) + comp
    extra = len(front) + len(want) - total
    enc = list(enc)
    enc.reverse()
    want = list(want)
    want.reverse()
    s = front + bytes(enc) + b'\xff' * pad + \
        bytes([comp & 255, comp >> 8 & 255, comp >> 16, hlen]) + \
        bytes([(extra >> 8 * i) & 255 for i in range(4)])
    return s, front + bytes(want), extra


def decoder(e, shape, trail):
    want, enc = [], []
    build(e, shape, want, enc)
    pad = e.pick('pad', 0, 3)
    front = e.bytes('front', e.pick('nfront', 0, 2) * 2)
    s, d, extra = assemble(front, enc, want, pad)
    if extra <= 0:
        e.skip()
    if trail:
        off = e.int('off', 0, 0x3FFF)
        t = b'\x21\x06\xc0\xde' + bytes([off & 255, off >> 8, 0, 0]) + bytes(4)
        e.check_eq(cc.decompress(s + t), d + t, 'the trailer stays behind the decompressed data')
        return
    got = cc.decompress(s)
    e.out('got', got)
    e.check_eq(got, d, 'the data the file defines')


def appended(e, n):
    want, enc = [], []
    build(e, 'LLLR', want, enc)
    s, d, extra = assemble(e.bytes('front', 2), enc, want, 2)
    if extra <= 0:
        e.skip()
    # what lies behind must not itself look like a footer
    t = bytes([e.int(f't{i}', 0, 7 if i % 4 == 3 else 255) for i in range(n)])
    e.check_eq(cc.decompress(s + t), d + t, 'appended bytes stay behind the decompressed data')


def front(e):
    want, enc = [], []
    build(e, 'LLLR', want, enc)
    s, d, extra = assemble(e.bytes('f', 2) + bytes(0x10000) + e.bytes('g', 1), enc, want, e.pick('pad', 0, 3))
    if extra <= 0:
        e.skip()
    e.check_eq(cc.decompress(s), d, 'what comes before the compressed part stays as it is')


def large(e):
    lits = [e.int(f'l{i}', 0, 255) for i in range(3)] + [7] * 0x10005
    refs = 800
    want = lits + [7] * (18 * refs)
    enc = []
    for g in range(0, len(lits), 8):
        enc.append(0)
        enc += lits[g:g + 8]
    for g in range(0, refs, 8):
        enc += [255] + [0xF0, 0] * 8
    s, d, extra = assemble(e.bytes('front', 2), enc, want, e.pick('pad', 0, 3))
    e.assume(extra > 0)
    e.check_eq(cc.decompress(s), d, 'large data')


def plain(e, n, at, w):
    """w free bytes ending at `at`, zeros around them."""
    lo = max(0, at - w)
    d = bytes(lo) + e.bytes('d', at - lo) + bytes(n - at)
    e.assume(lz.no_footer(e, d))
    e.check_eq(cc.decompress(d), d, 'uncompressed data is returned unmodified')


def zero(e, n):
    amt = e.choice('amt', [a for a in range(0, 0x20, 4) if n - a >= 12])
    hlen = e.pick('hlen', 8, 11)
    end = n - amt
    comp = e.int('comp', 0, n)
    tail = bytearray(amt)
    if amt:
        # what lies behind must not itself look like a footer
        tail[0] = e.int('t0', 0, 255)
        tail[amt - 1] = e.int('t1', 0, 7)
        tail[amt - 4] = e.int('t2', 0, 255)
    d = e.bytes('d', end - hlen) + b'\xff' * (hlen - 8) + bytes([comp, 0, 0, hlen]) + bytes(4) + bytes(tail)
    e.check_eq(cc.decompress(d), d, 'data marked as not compressed is returned unmodified')


def far(e):
    free = e.bytes('free', 4)
    lits = list(lz.filler(0x1002 - 8, 40) + free + b'\x01\x02\x03\x04')
    disp = e.pick('disp', 0x1000, 0x1002)
    n = e.choice('n', [3, 18])
    refs = [(n, disp)] + [(18, 3)] * 40
    toks = lits + refs
    enc, want = [], []
    for g in range(0, len(toks), 8):
        flags = 0
        bs = []
        for i, t in enumerate(toks[g:g + 8]):
            if isinstance(t, tuple):
                flags |= 0x80 >> i
                bs.append((t[0] - 3) << 4 | (t[1] - 3) >> 8)
                bs.append((t[1] - 3) & 255)
                for _ in range(t[0]):
                    want.append(want[-t[1]])
            else:
                bs.append(t)
                want.append(t)
        enc.append(flags)
        enc += bs
    s, d, extra = assemble(b'', enc, want, e.pick('pad', 0, 3))
    e.assume(extra > 0)
    e.check_eq(cc.decompress(s), d, 'far references')
