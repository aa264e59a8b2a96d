"""L02: LZ10 streams conform to the format in both directions."""

import ndspy.lz10 as lz10
from refs import lz

ASSUMPTIONS = [
    'beyond 8 bytes only the listed families of strings are covered (all values of their free bytes)',
    'streams to decompress: the listed sequences of literals (L) and references (R), '
    'with any literal bytes, lengths 3..18 and displacements inside the data']


def cases(tier):
    for kind, n, k in lz.cases(tier, 0x1000):
        yield dict(name=f'enc-{kind}-{n}-{k}', fn='encoder', args={'kind': kind, 'n': n, 'k': k}, ticks=lz.ticks(n),
                   bounds=lz.DESCR[kind].format(n=n, k=k))
    shapes = ['L', 'LL', 'LR', 'LLR', 'LRL', 'LRR', 'LLLRL', 'LLLLLLLL', 'LLLLLLLLL', 'LLLLLLLR',
              'LLLLLLLLR', 'LLLLLLLLRL', 'LRLLLLLLLL', 'LLLLLLLLLLLLLLLLR', 'RELLL']
    if tier != 'quick':
        shapes += ['LRLR', 'LLRRL', 'LLLLRLLLR', 'LLLLLLLLLRLLLLLLRL', 'LRRL', 'LLLLLLLRR']
    for s in shapes:
        if 'E' in s:
            continue
        yield dict(name='dec-' + s, fn='decoder', args={'shape': s},
                   bounds=f'every stream of the form {s}')
        if s.endswith('R') and len(s) < 10:
            yield dict(name='cut-' + s, fn='decoder', args={'shape': s, 'cut': True},
                       bounds=f'every stream of the form {s}, last reference cut by the announced size')
    yield dict(name='dec-empty', fn='empty', bounds='streams announcing no data')
    yield dict(name='dec-far', fn='far', args={'lo': 0xFFD, 'hi': 0x1000},
               bounds='references with displacement 0xFFD..0x1000, any length')
    yield dict(name='dec-large', fn='large', ticks=5000000,
               bounds='streams of more than 64 KiB of literals and of references, announcing any size up to 5 bytes less')
    yield dict(name='dec-wrong', fn='wrong', bounds='every wrong marker byte')


def encoder(e, kind, n, k):
    d = lz.family(e, kind, n, k)
    c = lz10.compress(d)
    e.check_eq(lz.lz10(e, c), d, 'an independent decoder recovers the data')


def decoder(e, shape, cut=False):
    body = []
    want = []
    for g in range(0, len(shape), 8):
        toks = shape[g:g + 8]
        flags = 0
        enc = []
        for i, t in enumerate(toks):
            if t == 'L':
                b = e.int(f'l{g + i}', 0, 255)
                enc.append(b)
                want.append(b)
            else:
                n = e.pick(f'n{g + i}', 3, 18)
                disp = e.pick(f'd{g + i}', 1, len(want)) if len(want) < 40 else 3
                flags |= 0x80 >> i
                enc.append((n - 3) << 4 | (disp - 1) >> 8)
                enc.append((disp - 1) & 0xFF)
                for _ in range(n):
                    want.append(want[-disp])
        body.append(flags)
        body += enc
    size = len(want)
    if cut:
        size -= e.pick('cut', 1, 2)
        want = want[:size]
    s = bytes([0x10, size & 255, size >> 8, 0]) + bytes(body)
    got = lz10.decompress(s)
    e.out('got', got)
    e.check_eq(got, bytes(want), 'the data the stream defines')
    pad = e.bytes('pad', 3)
    e.check_eq(lz10.decompress(s + pad), bytes(want), 'padding after the stream is ignored')


def empty(e):
    e.check_eq(lz10.decompress(b'\x10\0\0\0'), b'', 'no data')
    e.check_eq(lz10.decompress(b'\x10\0\0\0' + e.bytes('pad', 4)), b'', 'no data')


def far(e, lo, hi):
    free = e.bytes('free', 4)
    lits = lz.filler(0x1000 - 8) + free + b'\x01\x02\x03\x04'
    body = bytearray()
    for g in range(0, len(lits), 8):
        body.append(0)
        body += lits[g:g + 8]
    disp = e.pick('disp', lo, hi)
    n = e.pick('n', 3, 18)
    body.append(0x80)
    body.append((n - 3) << 4 | (disp - 1) >> 8)
    body.append((disp - 1) & 255)
    tail = e.int('t', 0, 255)
    body.append(tail)
    start = len(lits) - disp
    want = lits + lits[start:start + n] + bytes([tail])
    size = len(want)
    s = bytes([0x10, size & 255, size >> 8, 0]) + bytes(body)
    e.check_eq(lz10.decompress(s), want, 'far references')


def large(e):
    free = e.bytes('free', 3)
    body, want = bytearray(b'\x10') + free, list(free)
    if e.choice('literals', [False, True]):
        want += [7] * 0x10000
        body += b'\7' * 5 + b'\0\7\7\7\7\7\7\7\7' * 0x2000
        body[0] = 0
    else:
        body += b'\xf0\2' + bytes([want[0]] + [9] * 3)
        for i in range(18):
            want.append(want[-3])
        want += [want[0]] + [9] * 3
        for i in range(0x200):
            body += b'\xff' + b'\xf0\0' * 8
        want += [9] * (0x200 * 8 * 18)
    size = len(want) - e.pick('cut', 0, 5)
    body[:0] = bytes([0x10, size & 255, size >> 8 & 255, size >> 16])
    e.check_eq(lz10.decompress(bytes(body)), bytes(want[:size]), 'large data')


def wrong(e):
    b = e.bytes('d', 12)
    e.assume(b[0] != 0x10)
    e.check(e.raises((TypeError, ValueError), lz10.decompress, b) is not None,
            'data without the LZ10 marker is refused')
