"""T01: touch and button layouts survive saving and loading."""

import ndspy
import ndspy._common as common
import ndspy.bncl as bncl
import ndspy.bnbl as bnbl
from refs.bin import u16, u32, p16, p32

ASSUMPTIONS = [
    'up to 6 entries (300 in one case) with all values; positions 0..4095, which is what the format has',
    'alignments name exactly one horizontal and one vertical side']

A = ndspy.Alignment
H = [(A.LEFT, 0, 'left'), (A.H_CENTER, 1, 'center'), (A.RIGHT, 2, 'right')]
V = [(A.TOP, 0, 'top'), (A.V_CENTER, 1, 'center'), (A.BOTTOM, 2, 'bottom')]


def cases(tier):
    q = tier == 'quick'
    for kind in ('bncl', 'bnbl'):
        for n in range(0, 3 if q else 4):
            yield dict(name=f'{kind}{n}', fn='roundtrip', args={'kind': kind, 'n': n},
                       bounds=f'{n} entries, all values and alignments')
        yield dict(name=f'{kind}many', fn='many', args={'kind': kind, 'n': 300},
                   bounds='300 entries, all values, fixed alignments')
        for n in range(0, 4 if q else 7):
            yield dict(name=f'{kind}foreign{n}', fn='foreign', args={'kind': kind, 'n': n},
                       bounds=f'any file of {n} entries, followed by up to 3 more bytes')
        yield dict(name=f'{kind}magic', fn='magic', args={'kind': kind}, bounds='any magic')
    yield dict(name='topleft', fn='topleft', bounds='all positions, sizes and alignments')
    yield dict(name='pack', fn='pack', bounds='all packed positions')
    yield dict(name='names', fn='names', bounds='all alignments')
    yield dict(name='constants', fn='constants', bounds='alignment values')
    yield dict(name='defaults', fn='defaults', bounds='new objects')


def pick(e, i):
    h, v = e.choice(f'h{i}', H), e.choice(f'v{i}', V)
    return h, v


def entry(e, kind, i, h, v):
    x, y = e.int(f'x{i}', 0, 4095), e.int(f'y{i}', 0, 4095)
    raw = p16(x | h[1] << 12) + p16(y | v[1] << 12)
    if kind == 'bncl':
        im = e.int(f'image{i}', 0, 0xFFFFFFFF)
        return bncl.BNCLImagePosition(x, y, h[0] | v[0], im), raw + p32(im), (x, y, h[0] | v[0], im)
    w, k = e.int(f'w{i}', 0, 255), e.int(f'hh{i}', 0, 255)
    return bnbl.BNBLTouchArea(x, y, w, k, h[0] | v[0]), raw + bytes([w, k]), (x, y, h[0] | v[0], w, k)


def values(kind, o):
    if kind == 'bncl':
        return o.x, o.y, o.alignment, o.imageID
    return o.x, o.y, o.alignment, o.width, o.height


def mk(kind, items, unk):
    return bncl.BNCL.fromImagePositions(items, unk) if kind == 'bncl' else bnbl.BNBL.fromTouchAreas(items, unk)


def load(kind, d):
    if kind == 'bncl':
        f = bncl.BNCL(d)
        return f, f.imagePositions
    f = bnbl.BNBL(d)
    return f, f.touchAreas


def verify(e, kind, es, unk):
    f = mk(kind, [x[0] for x in es], unk)
    d = f.save()
    want = (b'JNCL' if kind == 'bncl' else b'JNBL') + p16(unk) + p16(len(es))
    for x in es:
        want = want + x[1]
    e.check_eq(d, want, 'file contents')
    g, items = load(kind, d)
    e.check_eq(g.unk04, unk, 'unk04')
    e.check(len(items) == len(es), 'number of entries')
    for i, x in enumerate(es):
        e.check_eq(values(kind, items[i]), x[2], f'entry {i}')
    e.check_eq(g.save(), d, 'saving again gives the same file')


def roundtrip(e, kind, n):
    verify(e, kind, [entry(e, kind, i, *pick(e, i)) for i in range(n)], e.int('unk', 0, 0xFFFF))


def many(e, kind, n):
    verify(e, kind, [entry(e, kind, i, H[i % 3], V[i // 3 % 3]) for i in range(n)], e.int('unk', 0, 0xFFFF))


def foreign(e, kind, n):
    size = 8 if kind == 'bncl' else 6
    d = (b'JNCL' if kind == 'bncl' else b'JNBL') + e.bytes('unk', 2) + p16(n)
    rows = []
    for i in range(n):
        row = e.bytes(f'r{i}', size)
        rows.append(row)
        d = d + row
    f, items = load(kind, d + e.bytes('tail', e.pick('extra', 0, 3)))
    e.check_eq(f.unk04, u16(d, 4), 'unk04')
    e.check(len(items) == n, 'number of entries')
    for i, r in enumerate(rows):
        o = items[i]
        e.check_eq(o.x, u16(r, 0) & 0xFFF, f'x of entry {i}')
        e.check_eq(o.y, u16(r, 2) & 0xFFF, f'y of entry {i}')
        ha, va = r[1] >> 4 & 3, r[3] >> 4 & 3
        e.check_eq(o.alignment & 0x0F, e.ite(ha == 1, A.H_CENTER, e.ite(ha == 2, A.RIGHT, A.LEFT)),
                   f'horizontal alignment of entry {i}')
        e.check_eq(o.alignment & 0xF0, e.ite(va == 1, A.V_CENTER, e.ite(va == 2, A.BOTTOM, A.TOP)),
                   f'vertical alignment of entry {i}')
        if kind == 'bncl':
            e.check_eq(o.imageID, u32(r, 4), f'image of entry {i}')
        else:
            e.check_eq((o.width, o.height), (r[4], r[5]), f'size of entry {i}')
    # the parts of a file that have a meaning are kept
    s = f.save()
    e.check(len(s) == len(d), 'size of the saved file')
    for i, r in enumerate(rows):
        ha, va = r[1] >> 4, r[3] >> 4
        o = 8 + size * i
        e.check(e.implies(e.all([ha <= 2, va <= 2]), e.eq(s[o:o + size], r)), f'entry {i} is saved unchanged')


def magic(e, kind):
    d = e.bytes('m', 4) + bytes(4)
    r = e.raises(ValueError, bncl.BNCL if kind == 'bncl' else bnbl.BNBL, d) is not None
    e.check(r == (d[:4] != (b'JNCL' if kind == 'bncl' else b'JNBL')), 'other files are rejected')


def topleft(e):
    (h, _, _), (v, _, _) = pick(e, 0)
    x, y = e.int('x', 0, 4095), e.int('y', 0, 4095)
    w, k = e.int('w', 0, 255), e.int('h', 0, 255)
    left, top = bnbl.BNBLTouchArea(x, y, w, k, h | v).getTopLeft()
    # half sizes are rounded up
    e.check_eq(x - left, 0 if h == A.LEFT else w if h == A.RIGHT else (w + 1) >> 1, 'left edge')
    e.check_eq(y - top, 0 if v == A.TOP else k if v == A.BOTTOM else (k + 1) >> 1, 'top edge')


def pack(e):
    xp, yp = e.int('x', 0, 0xFFFF), e.int('y', 0, 0xFFFF)
    x, y, al = common.unpackAlignmentFromPos(xp, yp)
    a, b = common.packAlignmentIntoPos(x, y, al)
    for p, q in ((xp, a), (yp, b)):
        e.check_eq(q & 0xFFF, p & 0xFFF, 'position')
        e.check_eq(q >> 12, e.ite((p >> 12 & 3) == 3, 0, p >> 12 & 3), 'alignment')


def names(e):
    h, v = pick(e, 0)
    want = 'center' if h[2] == v[2] == 'center' else v[2] + '-' + h[2]
    e.check_eq(common.getAlignmentName(h[0] | v[0]), want, 'alignment name')


def constants(e):
    vals = [A.LEFT, A.RIGHT, A.H_CENTER, A.TOP, A.BOTTOM, A.V_CENTER]
    e.check_eq(vals, [1, 2, 4, 0x10, 0x20, 0x40], 'values')
    e.check_eq(A.CENTER, A.H_CENTER | A.V_CENTER, 'center')


def defaults(e):
    a, b = bncl.BNCLImagePosition(), bnbl.BNBLTouchArea()
    e.check_eq(values('bncl', a), (0, 0, A.TOP | A.LEFT, 0), 'image position')
    e.check_eq(values('bnbl', b), (0, 0, A.TOP | A.LEFT, 0, 0), 'touch area')
    e.check_eq(bncl.BNCL().save(), b'JNCL\0\0\0\0', 'empty BNCL')
    e.check_eq(bnbl.BNBL().save(), b'JNBL\0\0\0\0', 'empty BNBL')
    # lists are not shared between objects
    x, y = bncl.BNCL(), bncl.BNCL()
    x.imagePositions.append(a)
    e.check(y.imagePositions == [], 'separate lists')
    x, y = bnbl.BNBL(), bnbl.BNBL()
    x.touchAreas.append(b)
    e.check(y.touchAreas == [], 'separate lists')
