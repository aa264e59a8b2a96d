"""U04: shared helpers compute what they promise."""

import ndspy
import ndspy._common as common
from refs.bin import p16, p32, u16, u32

ASSUMPTIONS = ['CRC-16 of up to 24 (thorough: 64) free bytes; info blocks of up to 4 entries and of 255 entries; lists of up to 4 '
               'names; printed forms of up to 3 bytes, of which one takes all values and the others representatives']
A = ndspy.Alignment


def cases(tier):
    q = tier == 'quick'
    for n in list(range(0, 9)) + [12, 16, 24] + ([] if q else [32, 48, 64]):
        yield dict(name=f'crc{n}', fn='crc', args={'n': n}, bounds=f'all strings of {n} bytes')
    yield dict(name='crc-append', fn='crcappend', bounds='all strings of 6 bytes followed by their checksum')
    for n in range(0, 5):
        yield dict(name=f'named{n}', fn='named', args={'n': n}, bounds=f'lists of {n} named values, any names')
        for w in (0, 1, 4, 8):
            yield dict(name=f'info{n}-{w}', fn='info', args={'n': n, 'w': w}, bounds=f'{n} entries of {w} bytes')
    yield dict(name='info255', fn='info', args={'n': 255, 'w': 4, 'fixed': 1}, bounds='255 entries')
    for n in (15, 16, 17, 40):
        yield dict(name=f'infoname{n}', fn='infoname', args={'n': n}, bounds=f'names of {n} characters')
    yield dict(name='infononame', fn='infononame', bounds='entries without a name')
    yield dict(name='infohead', fn='infohead', bounds='any values in the fixed parts of the headers')
    yield dict(name='infobad', fn='infobad', bounds='entries of the wrong length; wrong expected length')
    for n in range(0, 4):
        yield dict(name=f'string{n}', fn='string', args={'n': n}, bounds=f'all strings of {n} characters at any place of a file')
    yield dict(name='align', fn='align', bounds='all packed and unpacked positions')
    yield dict(name='alignrange', fn='alignrange', bounds='all positions from -0x8000 to 0xFFFF, all nine alignments')
    yield dict(name='corner', fn='corner', bounds='all positions and sizes, all nine alignments')
    yield dict(name='alignname', fn='alignname', bounds='all nine alignments')
    yield dict(name='note', fn='note', bounds='all notes')
    yield dict(name='notes', fn='notes', bounds='all pairs of notes')
    for at in range(3):
        yield dict(name=f'bytes{at}', fn='shortbytes', args={'at': at}, bounds='three bytes, one of them any')
    yield dict(name='byte', fn='shortbytes', args={'at': 0, 'alone': 1}, bounds='one byte')
    for n in (0, 31, 32, 33, 40):
        yield dict(name=f'bytes-long{n}', fn='longbytes', args={'n': n}, bounds=f'{n} bytes, the last two free')
    yield dict(name='enumerated', fn='enumerated', bounds='lists of 0..101 items')
    yield dict(name='listfind', fn='listfind', bounds='lists of 3 free numbers')
    yield dict(name='constants', fn='constants', bounds='the enumerations')


def crcref(d):
    """Division by x^16 + x^15 + x^2 + 1, bits least significant first."""
    reg = [1] * 16           # reg[0] is the coefficient of x^15
    for b in d:
        for i in range(8):
            out = reg[0] ^ (b >> i & 1)
            reg = reg[1:] + [0]
            # x^16 = x^15 + x^2 + 1
            reg[0] ^= out
            reg[13] ^= out
            reg[15] ^= out
    v = 0
    for i in range(16):
        v |= reg[i] << i
    return v


def crc(e, n):
    d = e.bytes('d', n)
    e.check_eq(common.crc16(d), crcref(d), 'checksum')
    e.check_eq(common.crc16(bytearray(d)), crcref(d), 'checksum of a bytearray')


def crcappend(e):
    d = e.bytes('d', 6)
    e.check_eq(common.crc16(d + p16(common.crc16(d))), 0, 'checksum of data with its checksum')


def named(e, n):
    names = [e.int(f'name{i}', 0, 5) for i in range(n)]
    vals = [e.int(f'v{i}', 0, 255) for i in range(n)]
    L = list(zip(names, vals))
    want = e.int('want', 0, 5)
    # the first one with that name
    first = -1
    for i in reversed(range(n)):
        first = e.ite(names[i] == want, i, first)
    first = e.concrete(first)
    if first < 0:
        e.check(e.raises(KeyError, ndspy.indexInNamedList, L, want) is not None, 'index of an unknown name')
        e.check(e.raises(KeyError, ndspy.findInNamedList, L, want) is not None, 'value of an unknown name')
        e.check(e.raises(KeyError, ndspy.setInNamedList, L, want, 7) is not None, 'setting of an unknown name')
    else:
        e.check_eq(ndspy.indexInNamedList(L, want), first, 'index')
        e.check_eq(ndspy.findInNamedList(L, want), vals[first], 'value')
        new = e.int('new', 0, 255)
        e.check(ndspy.setInNamedList(L, want, new) is None, 'setting')
        vals[first] = new
    e.check(len(L) == n, 'length afterwards')
    for i in range(n):
        e.check_eq(L[i][0], names[i], 'names afterwards')
        e.check_eq(L[i][1], vals[i], 'values afterwards')


def entries(e, n, w, fixed=0):
    out = []
    for i in range(n):
        if fixed:
            out.append((f'n{i}', i, 65535 - i, p32(i)[:w]))
            continue
        k = (3 * i + w) % 17
        s = e.str(f'name{i}', k, 1, 255)
        out.append((s, e.int(f'a{i}', 0, 65535), e.int(f'b{i}', 0, 65535), e.bytes(f'e{i}', w)))
    return out


def info(e, n, w, fixed=0):
    ents = entries(e, n, w, fixed)
    d = common.saveInfoBlock(ents, w)
    e.check_eq(len(d), 16 + n * (4 + w + 16), 'length')
    e.check_eq(d[1], n, 'number of entries')
    e.check_eq(u16(d, 2), len(d) & 0xFFFF, 'size')
    e.check_eq(d[4:12], p16(8) + p16(12 + 4 * n) + p32(0x17F), 'first header')
    o = 12
    for x in ents:
        e.check_eq(d[o:o + 4], p16(x[1]) + p16(x[2]), 'unknown values')
        o += 4
    e.check_eq(d[o:o + 4], p16(w) + p16(4 + n * w), 'second header')
    o += 4
    for x in ents:
        e.check_eq(d[o:o + w], x[3], 'entry')
        o += w
    for x in ents:
        e.check_eq(d[o:o + 16], x[0].encode('latin-1').ljust(16, b'\0'), 'name')
        o += 16
    for pre, exp in ((b'', None), (b'', w), (b'junk+', w)):
        back = common.loadInfoBlock(pre + d + b'more', len(pre), exp)
        e.check(len(back) == n, 'number of entries read')
        for a, b in zip(ents, back):
            for x, y in zip(a, b):
                e.check_eq(x, y, 'entries read')


def infoname(e, n):
    s = e.str('name', n, 1, 255)
    x = e.raises(ValueError, common.saveInfoBlock, [('ok', 1, 2, b''), (s, 3, 4, b'')], 0)
    e.check((x is not None) == (n > 16), 'names that are too long are refused')
    if x is None:
        e.check_eq(common.loadInfoBlock(e.result, 0)[1][0], s, 'name')


def infononame(e):
    ents = [(e.str('name', 3, 1, 255), 1, 2, e.bytes('d0', 4)), (None, 3, 4, e.bytes('d1', 4)), ('z', 5, 6, e.bytes('d2', 4))]
    d = common.saveInfoBlock(ents, 4)
    e.check_eq(d, common.saveInfoBlock([ents[0], ('', *ents[1][1:]), ents[2]], 4), 'no name is an empty name')
    back = common.loadInfoBlock(d, 0, 4)
    e.check_eq([x[0] for x in back], [ents[0][0], '', 'z'], 'names')


def infohead(e):
    n = e.pick('n', 0, 2)
    d = common.saveInfoBlock(entries(e, n, 4, 0), 4)
    o = 12 + 4 * n
    heads = [(4, 2), (6, 2), (8, 4), (o + 2, 2)]
    at, k = e.choice('head', heads)
    x = e.bytes('x', k)
    bad = d[:at] + x + d[at + k:]
    y = e.raises(Exception, common.loadInfoBlock, bad, 0)
    e.check_eq(y is not None, x != d[at:at + k], 'inconsistent blocks are refused')


def infobad(e):
    w = e.pick('w', 0, 6)
    k = e.pick('k', 0, 6)
    x = e.raises(ValueError, common.saveInfoBlock, [('a', 1, 2, e.bytes('d', k))], w)
    e.check((x is not None) == (k != w), 'entries of the wrong length are refused')
    if x is None:
        d = e.result
        exp = e.pick('exp', 0, 6)
        y = e.raises(Exception, common.loadInfoBlock, d, 0, exp)
        e.check((y is not None) == (exp != w), 'blocks of the wrong kind are refused')


def string(e, n):
    s = e.str('s', n, 1, 255)
    pre, post = e.bytes('pre', 3), e.bytes('post', 2)
    d = pre + s.encode('latin-1') + b'\0' + post
    e.check_eq(common.loadNullTerminatedStringFrom(d, 3), s, 'string')


HA = [A.LEFT, A.H_CENTER, A.RIGHT]
VA = [A.TOP, A.V_CENTER, A.BOTTOM]


def align(e):
    x, y = e.int('x', 0, 65535), e.int('y', 0, 65535)
    a, b, al = common.unpackAlignmentFromPos(x, y)
    e.check_eq(a, x % 4096, 'x')
    e.check_eq(b, y % 4096, 'y')
    h, v = e.concrete(x // 4096 % 4), e.concrete(y // 4096 % 4)
    e.check_eq(al, HA[h % 3] | VA[v % 3], 'alignment')
    p, q = common.packAlignmentIntoPos(a, b, al)
    e.check_eq(p, x % 4096 + h % 3 * 4096, 'x packed')
    e.check_eq(q, y % 4096 + v % 3 * 4096, 'y packed')


def alignrange(e):
    """A position never reaches into the alignment."""
    x, y = e.int('x', -0x8000, 0xFFFF), e.int('y', -0x8000, 0xFFFF)
    i, j = e.pick('h', 0, 2), e.pick('v', 0, 2)
    p, q = common.packAlignmentIntoPos(x, y, HA[i] | VA[j])
    e.check_eq(p, x % 4096 + i * 4096, 'x packed')
    e.check_eq(q, y % 4096 + j * 4096, 'y packed')


def corner(e):
    x, y = e.int('x', -5000, 5000), e.int('y', -5000, 5000)
    w, h = e.int('w', 0, 5000), e.int('h', 0, 5000)
    i, j = e.pick('h_', 0, 2), e.pick('v_', 0, 2)
    a, b = common.getTopLeftOfAlignedRect(x, y, w, h, HA[i] | VA[j])
    e.check_eq(a, x - [0, (w + 1) // 2, w][i], 'left edge')
    e.check_eq(b, y - [0, (h + 1) // 2, h][j], 'top edge')


def alignname(e):
    i, j = e.pick('h', 0, 2), e.pick('v', 0, 2)
    s = common.getAlignmentName(HA[i] | VA[j])
    e.check_eq(s, 'center' if i == j == 1 else ['top', 'center', 'bottom'][j] + '-' + ['left', 'center', 'right'][i], 'name')


def name(v):
    """Helmholtz notation; 60 is c'."""
    octave, k = v // 12, v % 12
    letter, sharp = [('c', 0), ('c', 1), ('d', 0), ('d', 1), ('e', 0), ('f', 0), ('f', 1), ('g', 0), ('g', 1), ('a', 0), ('a', 1),
                     ('b', 0)][k]
    if octave < 4:
        letter = letter.upper()
    return letter + ('♯' if sharp else '') + ("'" * (octave - 4) if octave > 4 else '͵' * (3 - octave))


def note(e):
    v = e.pick('v', 0, 127)
    e.check_eq(common.noteName(v), name(v), 'name')


def notes(e):
    v = e.pick('v', 0, 127)
    for w in range(v):
        e.check(common.noteName(v) != common.noteName(w), 'two notes with one name')


FEW = [0, 7, 8, 0x30, 0x39, 0x27, 0x22, 0x5C, 0xFF]


def shortbytes(e, at, alone=0):
    x = e.pick('x', 0, 255)
    if alone:
        d = bytes([x])
    else:
        few = [e.choice(f'other{i}', FEW) for i in range(2)]
        d = bytes(few[:at] + [x] + few[at:])
    s = common.shortBytesRepr(d)
    e.check(isinstance(s, str), 'a string')
    e.check_eq(value(s), d, 'value of the printed form')


def value(s):
    """Value of a bytes literal, or None."""
    import ast
    try:
        return ast.literal_eval(s)
    except (SyntaxError, ValueError):
        return None


def longbytes(e, n):
    k = e.pick('k', 0, 9)
    d = bytes([65 + i % 26 for i in range(max(0, n - 2))]) + bytes([k, 0x30 + k])[:n]
    s = common.shortBytesRepr(d)
    if n > 32:
        e.check(s[-3:] == '...', 'ends in dots')
        s = s[:-3]
    e.check_eq(value(s), d[:32], 'value of the printed form')
    for m in (1, 5):
        t = common.shortBytesRepr(d, m)
        e.check_eq(value(t[:-3] if n > m else t), d[:m], 'value of the short printed form')


def enumerated(e):
    n = e.choice('n', [0, 1, 2, 9, 10, 11, 100, 101])
    ind = e.choice('ind', [0, 2, 4])
    L = common.enumeratedListOfStrs([f'item{i}' for i in range(n)], ind)
    e.check(len(L) == n, 'length')
    w = len(str(n - 1))
    for i, s in enumerate(L):
        e.check_eq(s, ' ' * ind + '[' + ' ' * (w - len(str(i))) + str(i) + '] item' + str(i), 'line')


def listfind(e):
    L = [e.int(f'x{i}', 0, 3) for i in range(3)]
    w = e.int('w', 0, 3)
    r = -1
    for i in reversed(range(3)):
        r = e.ite(L[i] == w, i, r)
    e.check_eq(common.listFind(L, w), r, 'position')
    e.check(common.isIterable(L) and common.isIterable('') and not common.isIterable(5) and not common.isIterable(None), 'iterable')


def constants(e):
    e.int('x', 0, 1)
    e.check_eq([ndspy.Processor.ARM9, ndspy.Processor.ARM7], [9, 7], 'processors')
    e.check_eq([ndspy.WaveType.PCM8, ndspy.WaveType.PCM16, ndspy.WaveType.ADPCM], [0, 1, 2], 'wave types')
    bits = HA + VA
    for i, a in enumerate(bits):
        for b in bits[:i]:
            e.check(a & b == 0 and a != 0, 'alignments are distinct bits')
    e.check_eq(A.CENTER, A.H_CENTER | A.V_CENTER, 'centre')
