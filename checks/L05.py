"""L05: compression makes use of repeats and never adds more than its overhead."""

import ndspy.codeCompression as cc
import ndspy.lz10 as lz10
from refs import lz

ASSUMPTIONS = [
    'beyond 8 bytes only the listed families of strings are covered (all values of their free bytes)',
    'the yardstick is an encoder which always takes the longest repeat lying wholly before the position']


def cases(tier):
    for kind, n, k in lz.cases(tier, 0x1000):
        yield dict(name=f'lz10-{kind}-{n}-{k}', fn='small', args={'kind': kind, 'n': n, 'k': k}, ticks=lz.ticks(n),
                   bounds=lz.DESCR[kind].format(n=n, k=k))
    for kind, n, k in lz.cases(tier, 0x1002):
        for arm9 in ((False,) if 'window' in kind or kind == 'large' or kind == 'any' and n > 4 else (False, True)):
            yield dict(name=f'code-{kind}-{n}-{k}-{int(arm9)}', fn='code', args={'kind': kind, 'n': n, 'k': k, 'arm9': arm9}, ticks=lz.ticks(n),
                       bounds=lz.DESCR[kind].format(n=n, k=k) + (' behind 4000h bytes' if arm9 else ''))


def small(e, kind, n, k):
    d = lz.family(e, kind, n, k)
    c = lz10.compress(d)
    e.out('len', len(c))
    e.check(len(c) <= 4 + len(d) + (len(d) + 7) // 8 + 7, 'at most the overhead of literals is added')
    size, tokens = lz.greedy(d, 0x1000)
    # the last group of flags may be filled up
    e.check(len(c) <= 4 + size + -tokens % 8, 'repeats are made use of')


def code(e, kind, n, k, arm9):
    d = lz.family(e, kind, n, k)
    front = bytes(0x4000) if arm9 else b''
    c = cc.compress(front + d, arm9)
    e.out('len', len(c))
    got = len(c) - len(front)
    e.check(got <= len(d) + 3 + 4, 'at most padding and an empty footer are added')
    size, _ = lz.greedy(bytes(reversed(d)), 0x1002)
    full = (size + 3) // 4 * 4 + 8
    if full < len(d):
        e.check(got <= full, 'repeats are made use of')
