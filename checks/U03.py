"""U03: loaders refuse files of the wrong kind."""

import ndspy.bmg as bmg
import ndspy.lz10 as lz10
from refs import objs
from refs.bin import p16, p32, u16, u32

ASSUMPTIONS = ['one valid file of each kind with free contents, with its magic number, version or block name replaced by '
               'every other value; every string too short for a magic number']
MAGIC = {'narc': b'NARC', 'bmg': b'MESGbmg1', 'bncl': b'JNCL', 'bnbl': b'JNBL', 'nsbtx': b'BTX0', 'nsbmd': b'BMD0', 'swav': b'SWAV',
         'swar': b'SWAR', 'strm': b'STRM', 'sbnk': b'SBNK', 'sseq': b'SSEQ', 'ssar': b'SSAR', 'sdat': b'SDAT'}
VERSION = {'narc': 1, 'nsbtx': 1, 'nsbmd': 2, 'swav': 0x100, 'swar': 0x100, 'strm': 0x100, 'sbnk': 0x100, 'sseq': 0x100,
           'ssar': 0x100, 'sdat': 0x100}
# positions of block names
BLOCKS = {
    'narc': lambda d: [(0x10, b'BTAF'), (0x10 + u32(d, 0x14), b'BTNF'), (0x10 + u32(d, 0x14) + u32(d, 0x14 + u32(d, 0x14)), b'GMIF')],
    'nsbtx': lambda d: [(u32(d, 0x10), b'TEX0')],
    'nsbmd': lambda d: [(u32(d, 0x10), b'MDL0'), (u32(d, 0x14), b'TEX0')],
    'swav': lambda d: [(0x10, b'DATA')],
    'swar': lambda d: [(0x10, b'DATA')],
    'sbnk': lambda d: [(0x10, b'DATA')],
    'ssar': lambda d: [(0x10, b'DATA')],
    'strm': lambda d: [(0x10, b'HEAD'), (0x10 + u32(d, 0x14), b'DATA')],
    'sdat': lambda d: [(u32(d, 0x10), b'SYMB'), (u32(d, 0x18), b'INFO'), (u32(d, 0x20), b'FAT ')],
    'bmg': lambda d: [(0x20, b'INF1')],
}


def cases(tier):
    for k in MAGIC:
        n = len(MAGIC[k])
        yield dict(name=f'{k}-right', fn='right', args={'k': k}, bounds=f'{k} file with free contents')
        yield dict(name=f'{k}-magic', fn='magic', args={'k': k}, bounds=f'every other magic number of {n} bytes')
        for i in range(n):
            yield dict(name=f'{k}-magic{i}', fn='magic', args={'k': k, 'at': i}, bounds='every other value of one byte')
        for i in range(n):
            yield dict(name=f'{k}-short{i}', fn='short', args={'k': k, 'n': i}, bounds=f'every file of {i} bytes')
        yield dict(name=f'{k}-others', fn='others', args={'k': k}, bounds='files of all other kinds')
    for k in VERSION:
        yield dict(name=f'{k}-version', fn='version', args={'k': k}, bounds='every other version')
    for k in BLOCKS:
        for i in range({'narc': 3, 'nsbmd': 2, 'strm': 2, 'sdat': 3}.get(k, 1)):
            yield dict(name=f'{k}-block{i}', fn='block', args={'k': k, 'i': i}, bounds='every other name of the block')
    yield dict(name='bmg-encoding', fn='encoding', bounds='every encoding number')
    for n in (0, 1, 4, 8, 12):
        yield dict(name=f'lz10-{n}', fn='lz', args={'n': n}, bounds=f'every file of {n} bytes that does not begin with 0x10')


def refused(e, k, d, what):
    e.check(e.raises(Exception, objs.KINDS[k][2], d) is not None, what + ' is refused')


def file(e, k):
    if k == 'bmg':
        # messages are parsed before the next block is looked at
        b = bmg.BMG()
        b.messages = [bmg.Message(b'', ['ab'])]
        b.encoding = 'utf-16'
        return bytes(b.save())
    make, save, load, _ = objs.KINDS[k]
    return bytes(save(make(e)))


def right(e, k):
    d = bytes(objs.KINDS[k][1](objs.KINDS[k][0](e)))
    e.check_eq(d[:len(MAGIC[k])], MAGIC[k], 'magic number')
    e.check(e.raises(Exception, objs.KINDS[k][2], d) is None, 'the right file is accepted')


def magic(e, k, at=None):
    d, m = file(e, k), MAGIC[k]
    if at is None:
        w = e.bytes('wrong', len(m))
    else:
        w = m[:at] + e.bytes('wrong', 1) + m[at + 1:]
    e.assume(e.eq(w, m) == False)
    refused(e, k, w + d[len(m):], 'a wrong magic number')


def short(e, k, n):
    refused(e, k, e.bytes('d', n), 'a file that is too short')


def others(e, k):
    for o in MAGIC:
        if o != k:
            refused(e, k, small(o), f'a {o} file')


def small(k):
    return bytes(objs.first(objs.KINDS[k][3]().save())) if k not in ('nsbtx', 'nsbmd') else \
        MAGIC[k] + b'\xFF\xFE' + p16(VERSION[k]) + p32(0x40) + p16(0x10) + p16(1) + bytes(0x30)


def version(e, k):
    d = file(e, k)
    v = e.int('wrong', 0, 65535)
    big = k == 'narc' and d[4:6] == b'\xFE\xFF'
    e.assume(v != (VERSION[k] << 8 if big else VERSION[k]))
    refused(e, k, d[:6] + p16(v) + d[8:], 'a wrong version')


def block(e, k, i):
    d = file(e, k)
    at, m = BLOCKS[k](d)[i]
    e.check_eq(d[at:at + 4], m, 'name of the block')
    w = e.bytes('wrong', 4)
    if k in ('bmg', 'nsbmd'):
        for x in (b'INF1', b'DAT1', b'MID1', b'FLW1', b'FLI1', b'STR1', b'MDL0', b'TEX0'):
            e.assume(e.eq(w, x) == False)
    e.assume(e.eq(w, m) == False)
    refused(e, k, d[:at] + w + d[at + 4:], 'a wrong block')


def encoding(e):
    b = bmg.BMG()
    d = bytes(b.save())
    n = e.int('enc', 0, 255)
    x = e.raises(ValueError, bmg.BMG, d[:0x10] + bytes([n]) + d[0x11:])
    ok = e.all([n >= 1, n <= 4])
    e.check(ok == (x is None), 'exactly the known encodings are accepted')
    if x is None:
        e.check_eq(e.result.encoding, ['cp1252', 'utf-16', 'shift-jis', 'utf-8'][n - 1], 'encoding')


def lz(e, n):
    d = e.bytes('d', n)
    if n:
        e.assume(d[0] != 0x10)
    e.check(e.raises(Exception, lz10.decompress, d) is not None, 'data that is not LZ10 is refused')
