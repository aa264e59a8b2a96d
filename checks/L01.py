"""L01: LZ10 compression is the exact inverse of decompression."""

import ndspy.lz10 as lz10
from refs import lz

ASSUMPTIONS = [
    'beyond 8 bytes only the listed families of strings are covered (all values of their free bytes)',
    'data of 16 MiB and more is outside the bounds']


def cases(tier):
    for kind, n, k in lz.cases(tier, 0x1000):
        yield dict(name=f'{kind}-{n}-{k}', fn='roundtrip', args={'kind': kind, 'n': n, 'k': k}, ticks=lz.ticks(n),
                   bounds=lz.DESCR[kind].format(n=n, k=k))


def roundtrip(e, kind, n, k):
    d = lz.family(e, kind, n, k)
    c = lz10.compress(d)
    e.out('c', c)
    e.check_eq(lz10.decompress(c), d, 'decompress(compress(d)) == d')
