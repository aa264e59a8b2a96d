"""Independent reader and writer of info blocks and TEX0 blocks, and the
colours of texture formats as the hardware defines them."""

from refs.bin import u8, u16, u32, p8, p16, p32

# format number: bits per pixel in the first and second data area
BITS = {0: (0, 0), 1: (8, 0), 2: (2, 0), 3: (4, 0), 4: (8, 0), 5: (2, 1), 6: (8, 0), 7: (16, 0)}


def sizes(fmt, w, h):
    a, b = BITS[fmt]
    return w * h * a // 8, w * h * b // 8


def name(s):
    return s + bytes(16 - len(s))


def infoblock(entries, size):
    """entries: (name bytes, unk00, unk02, data)"""
    n = len(entries)
    out = p16(8) + p16(12 + 4 * n) + p32(0x17F)
    out += b''.join(p16(a) + p16(b) for _, a, b, _ in entries)
    out += p16(size) + p16(4 + n * size)
    out += b''.join(d for _, _, _, d in entries)
    out += b''.join(name(s) for s, _, _, _ in entries)
    return b'\0' + p8(n) + p16(len(out) + 4) + out


def read_infoblock(e, d, off, size, what):
    """[(name, unk00, unk02, data)], length"""
    n = e.concrete(u8(d, off + 1))
    e.check_eq(u8(d, off), 0, what + ': first byte')
    total = 16 + n * (20 + size)
    e.check_eq(u16(d, off + 2), total, what + ': size')
    e.check_eq(u16(d, off + 4), 8, what + ': length of the first header')
    e.check_eq(u16(d, off + 6), 12 + 4 * n, what + ': length of the first list')
    e.check_eq(u32(d, off + 8), 0x17F, what + ': marker')
    p = off + 12
    unk = [(u16(d, p + 4 * i), u16(d, p + 4 * i + 2)) for i in range(n)]
    p += 4 * n
    e.check_eq(u16(d, p), size, what + ': entry size')
    e.check_eq(u16(d, p + 2), 4 + n * size, what + ': length of the entries')
    p += 4
    ents = [d[p + i * size:p + (i + 1) * size] for i in range(n)]
    p += n * size
    names = [d[p + 16 * i:p + 16 * i + 16] for i in range(n)]
    e.check(len(d) >= p + 16 * n, what + ': complete')
    return [(names[i], unk[i][0], unk[i][1], ents[i]) for i in range(n)], total


def params(t):
    """The parameter word of a texture description."""
    w = [8 << i for i in range(8)].index(t['w'])
    h = [8 << i for i in range(8)].index(t['h'])
    return t['flags'] | w << 4 | h << 7 | t['fmt'] << 10 | t['c0'] << 13 | t['mode'] << 14


def tex0(unk, texs, pals, order=None, gap=b''):
    """A TEX0 block as another tool might write it: data areas with gaps,
    palettes in another order, and entries that share data."""
    order = order or list(range(len(pals)))
    tdata, c1, c2, pdata = b'', b'', b'', b''
    te = []
    for t in texs:
        if t['fmt'] == 5:
            off = len(c1)
            c1 += t['d1'] + gap
            c2 += t['d2'] + gap[:len(gap) // 2]
        else:
            off = len(tdata)
            tdata += t['d1'] + gap
        te.append((t['name'], t['u0'], t['u2'], p16(off >> 3) + p16(params(t)) + p32(t['u4'])))
    where = {}
    for i in order:
        where[i] = len(pdata)
        pdata += pals[i]['data']
    for i, p in enumerate(pals):
        if 'share' in p:
            where[i] = where[p['share']]
    pe = [(p['name'], p['u0'], p['u2'], p16(where[i] >> 3) + p16(p['h2'])) for i, p in enumerate(pals)]
    tb, pb = infoblock(te, 8), infoblock(pe, 4)
    toff = 0x3C
    poff = toff + len(tb)
    td = poff + len(pb) + len(gap)
    o1 = td + len(tdata)
    o2 = o1 + len(c1)
    pd = o2 + len(c2)
    body = tb + pb + gap + tdata + c1 + c2 + pdata
    head = (p32(unk[0]) + p16(len(tdata) >> 3) + p16(toff) + p32(unk[1]) + p32(td) + p32(unk[2]) +
            p16(len(c1) >> 3) + p16(toff) + p32(unk[3]) + p32(o1) + p32(o2) + p32(unk[4]) +
            p16(len(pdata) >> 3) + p16(unk[5]) + p32(poff) + p32(pd))
    return b'TEX0' + p32(len(body) + 0x3C) + head + body


def nsbtx(block):
    return b'BTX0\xff\xfe\1\0' + p32(0x14 + len(block)) + p16(0x10) + p16(1) + p32(0x14) + block


def color(c):
    return c & 31, c >> 5 & 31, c >> 10 & 31


def mix(e, a, b, x, y, s):
    return tuple((p * x + q * y) >> s for p, q in zip(color(a), color(b)))


def texel(e, fmt, v, pal, c0):
    """(r, g, b, a) of texel value v in an indexed or direct format."""
    if fmt == 7:
        return color(v) + (e.ite(v >> 15 == 1, 31, 0),)
    if fmt == 1:
        a = v >> 5
        return color(pal[v & 31]) + (a * 4 + a // 2,)
    if fmt == 6:
        return color(pal[v & 7]) + (v >> 3,)
    return color(pal[v]) + (e.ite(e.all([v == 0, c0]), 0, 31),)


def compressed(e, sub, info, pal):
    """(r, g, b, a) of a texel of a 4x4 block; sub and mode are concrete."""
    mode = e.concrete(info >> 14)
    base = (info & 0x3FFF) * 2
    if sub < 2:
        return color(pal[base + sub]) + (31,)
    if sub == 3 and mode < 2:
        return 0, 0, 0, 0
    if mode in (0, 2):
        return color(pal[base + sub]) + (31,)
    a, b = pal[base], pal[base + 1]
    if mode == 1:
        return mix(e, a, b, 1, 1, 1) + (31,)
    return (mix(e, a, b, 5, 3, 3) if sub == 2 else mix(e, a, b, 3, 5, 3)) + (31,)
