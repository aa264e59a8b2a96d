"""L03: code compression is undone by code decompression."""

import ndspy.codeCompression as cc
from refs import lz

ASSUMPTIONS = [
    'beyond 8 bytes only the listed families of strings are covered (all values of their free bytes)',
    'data stored uncompressed must not happen to end like a compressed file does (known finding)']


def cases(tier):
    for kind, n, k in lz.cases(tier, 0x1002):
        yield dict(name=f'{kind}-{n}-{k}', fn='roundtrip', args={'kind': kind, 'n': n, 'k': k}, ticks=lz.ticks(n),
                   bounds=lz.DESCR[kind].format(n=n, k=k))
    for kind, n, k in [('periodic', 40, 2), ('any', 3, 0), ('any', 0, 0), ('tail', 8, 3)]:
        yield dict(name=f'arm9-{kind}-{n}', fn='arm9', args={'kind': kind, 'n': n, 'k': k},
                   bounds='0x4000 bytes (4 free) in front of: ' + lz.DESCR[kind].format(n=n, k=k))
    for n in (0, 5, 0x3FFF, 0x4000):
        yield dict(name=f'arm9-short-{n}', fn='arm9short', args={'n': n},
                   bounds=f'ARM9 code of {n} bytes (up to 4 free)')
    yield dict(name='ambiguous', fn='ambiguous',
               bounds='12 bytes of incompressible data ending like a compressed file (known finding)')


def verify(e, d, c):
    got = cc.decompress(c)
    e.out('got', got)
    if len(got) == len(d):
        e.check_eq(got, d, 'decompress(compress(d)) == d')
    else:
        stored = d + bytes(-len(d) % 4) + bytes(4)
        e.check_eq(got, stored, 'decompress(compress(d)) is d, or d as stored uncompressed')
        e.check_eq(c, stored, 'only stored data comes back with its footer')


def roundtrip(e, kind, n, k):
    d = lz.family(e, kind, n, k)
    c = cc.compress(d)
    e.out('c', c)
    stored = d + bytes(-len(d) % 4) + bytes(4)
    if len(c) == len(stored):
        e.assume(e.any([c != stored, lz.no_footer(e, c, 4)]))
    verify(e, d, c)


def arm9(e, kind, n, k):
    front = e.bytes('f', 4) + lz.filler(0x4000 - 4, 40)
    d = lz.family(e, kind, n, k)
    c = cc.compress(front + d, True)
    e.check_eq(c[:0x4000], front, 'the secure area is stored as it is')
    if len(c) < len(front + d):
        verify(e, front + d, c)
        e.check_eq(c[0x4000:], cc.compress(d), 'the rest is compressed on its own')


def arm9short(e, n):
    d = e.bytes('f', min(4, n)) + lz.filler(max(0, n - 4), 40)[:max(0, n - 4)]
    c = cc.compress(d, True)
    e.check_eq(c[:n], d, 'stored as it is')
    e.check_eq(c[n:], bytes(4), 'marked as not compressed')


def ambiguous(e):
    d = b'\x01\x02\x03\x04' + bytes([e.int('comp', 8, 12), 0, 0, 8, e.int('extra', 1, 3), 0, 0, 0])
    c = cc.compress(d)
    verify(e, d, c)
