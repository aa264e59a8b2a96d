"""X02: texture rendering follows the hardware texture formats."""

import ndspy.color as color
import ndspy.texture as tex
from refs import texref

ASSUMPTIONS = ['16 texels (A1BGR5, indexed formats) or one 4x4 block (compressed) are free at a time, '
               'the others follow fixed patterns; palettes of up to 32 free colours '
               '(I8: 256 fixed colours, 8 of them free)',
               'compressed textures refer to a palette of 16 colours; raw colour values are 16 bits',
               'PIL is replaced by a recorder of mode, size and pixel bytes']
FMT = {1: 'A3I5', 2: 'I2', 3: 'I4', 4: 'I8', 5: 'TEXELED', 6: 'A5I3', 7: 'A1BGR5'}
NCOL = {1: 32, 2: 4, 3: 16, 4: 256, 6: 8, 7: 0}


def cases(tier):
    q = tier == 'quick'
    for f in FMT:
        if f == 5:
            continue
        n = texref.sizes(f, 8, 8)[0]
        step = n // 4
        for start in range(0, n, step) if f != 4 else range(0, n, 8):
            for how in ('tuple', 'raw'):
                yield dict(name=f'{FMT[f]}-{start}-{how}', fn='plain',
                           args={'f': f, 'start': start, 'n': min(step, 16, n - start), 'w': 8, 'h': 8, 'how': how},
                           bounds=f'8x8, {min(step, 16, n - start)} free bytes at {start}, {how} colours')
        for w, h in ((16, 8), (8, 32)) if q else ((16, 8), (8, 32), (64, 16), (8, 128)):
            yield dict(name=f'{FMT[f]}-{w}x{h}', fn='plain',
                       args={'f': f, 'start': texref.sizes(f, w, h)[0] - 8, 'n': 8, 'w': w, 'h': h, 'how': 'tuple'},
                       bounds=f'{w}x{h}, last 8 bytes free')
    for mode in range(4):
        for pos in range(16):
            yield dict(name=f'TEXELED-{mode}-{pos}', fn='block', args={'mode': mode, 'pos': pos, 'w': 8, 'h': 8, 'blk': pos % 4},
                       bounds=f'8x8, mode {mode}, texel {pos} free, any palette offset and colours')
        for w, h in ((16, 8), (8, 16), (32, 8)):
            for blk in range(w * h // 16) if not q else (0, 1, 3, w * h // 16 - 1):
                yield dict(name=f'TEXELED-{mode}-{w}x{h}-{blk}', fn='block',
                           args={'mode': mode, 'pos': blk + 3, 'w': w, 'h': h, 'blk': blk},
                           bounds=f'{w}x{h}, mode {mode}')
    yield dict(name='unsupported', fn='unsupported', bounds='format 0')
    yield dict(name='object', fn='whole', bounds='rendering loaded textures with loaded palettes')


def check_out(e, got, img, want, w, h):
    e.check(len(got) == w * h, 'number of pixels')
    for i, c in enumerate(want):
        e.check_eq(tuple(got[i]), c, f'pixel {i}')
    e.check(img.size == (w, h), 'image size')
    e.check(img.mode == 'RGBA', 'image mode')
    d = img.tobytes()
    e.check(len(d) == 4 * w * h, 'amount of image data')
    for i, c in enumerate(want):
        for k in range(4):
            e.check_eq(d[4 * i + k], c[k] << 3 | c[k] >> 2, f'image pixel {i}')


def tuples(raw):
    return [color.ColorTuple(c & 31, c >> 5 & 31, c >> 10 & 31, c >> 15) for c in raw]


def plain(e, f, start, n, w, h, how):
    size = texref.sizes(f, w, h)[0]
    d = [(i * 37 + 11) % 256 for i in range(size)]
    free = e.bytes('d', n)
    for i in range(n):
        d[start + i] = free[i]
    d = bytes(d)
    ncol = NCOL[f]
    if f == 4:
        raw = [(i * 2531 + 77) % 65536 for i in range(256)]
        for i in range(8):
            raw[(i * 37) % 256] = e.int(f'c{i}', 0, 65535)
    else:
        raw = [e.int(f'c{i}', 0, 65535) for i in range(ncol)]
    c0 = e.bool('transp')
    want = []
    for y in range(h):
        for x in range(w):
            i = y * w + x
            if f == 7:
                v = d[2 * i] | d[2 * i + 1] << 8
            elif f == 2:
                v = d[i // 4] >> 2 * (i % 4) & 3
            elif f == 3:
                v = d[i // 2] >> 4 * (i % 2) & 15
            else:
                v = d[i]
            want.append(texref.texel(e, f, v, raw, c0))
    pal = (tuples(raw) if how == 'tuple' else list(raw)) if f != 7 else None
    fmt = tex.TextureFormat(f)
    got = tex.renderTextureData(d, b'', fmt, w, h, pal, c0)
    img = tex.renderTextureDataAsImage(d, b'', fmt, w, h, pal, c0)
    check_out(e, got, img, want, w, h)
    if how == 'tuple':
        t = tex.Texture(0, 0, 0, 0, d, b'')
        t.size, t.format, t.isColor0Transparent = (w, h), fmt, c0
        p = tex.Palette.fromColors(0, 0, 0, pal) if pal is not None else None
        check_out(e, t.render(p), t.renderAsImage(p), want, w, h)


def block(e, mode, pos, w, h, blk):
    """One free texel in one block; the others are fixed."""
    pos %= 16
    nblk = w * h // 16
    d1 = [[(b + s * 5 + s // 4) % 4 for s in range(16)] for b in range(nblk)]
    info = [(b % 4) << 14 | (b * 3) % 7 for b in range(nblk)]
    d1[blk][pos] = e.pick('texel', 0, 3)
    info[blk] = mode << 14 | e.int('off', 0, 6)
    raw = [e.int(f'c{i}', 0, 65535) for i in range(16)]
    data1 = bytes(sum(t[4 * r + k] << 2 * k for k in range(4)) for t in d1 for r in range(4))
    data2 = b''.join(texref.p16(i) for i in info)
    c0 = e.bool('transp')
    want = [None] * (w * h)
    for b in range(nblk):
        by, bx = b // (w // 4) * 4, b % (w // 4) * 4
        for s in range(16):
            want[(by + s // 4) * w + bx + s % 4] = texref.compressed(e, d1[b][s], info[b], raw)
    fmt = tex.TextureFormat.TEXELED
    pal = tuples(raw)
    got = tex.renderTextureData(data1, data2, fmt, w, h, pal, c0)
    img = tex.renderTextureDataAsImage(data1, data2, fmt, w, h, list(raw), c0)
    check_out(e, got, img, want, w, h)


def unsupported(e):
    t = tex.Texture(0, 0, 0, 0, b'', b'')
    e.check(e.raises(ValueError, t.render) is not None, 'format 0 cannot be rendered')
    e.check(e.raises(ValueError, t.renderAsImage) is not None, 'format 0 cannot be rendered')


def whole(e):
    f = e.choice('f', (1, 2, 3, 6, 7))
    w = h = 8
    d = e.bytes('d', 8) + bytes((i * 37) % 256 for i in range(texref.sizes(f, w, h)[0] - 8))
    raw = [e.int(f'c{i}', 0, 65535) for i in range(32)]
    c0 = e.bool('transp')
    t = tex.Texture(0, 0, f << 10, 0, d, b'')
    t.isColor0Transparent = c0
    n = tex.NSBTX()
    n.textures = [('t', t)]
    n.palettes = [('p', tex.Palette.fromColors(0, 0, 0, tuples(raw)))]
    n = tex.NSBTX(n.save())
    want = []
    for i in range(64):
        v = {7: lambda: d[2 * i] | d[2 * i + 1] << 8, 2: lambda: d[i // 4] >> 2 * (i % 4) & 3,
             3: lambda: d[i // 2] >> 4 * (i % 2) & 15}.get(f, lambda: d[i])()
        want.append(texref.texel(e, f, v, raw, c0))
    t, p = n.textures[0][1], n.palettes[0][1]
    check_out(e, t.render(p), t.renderAsImage(p), want, w, h)
