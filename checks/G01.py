"""G01: image tiles and tilemaps survive saving and loading."""

import ndspy.graphics2D as g

ASSUMPTIONS = ['tile lists hold up to 3 tiles (quick) or 8 tiles (thorough); pixels fit their format']
IF = {'I4': (32, 15), 'I8': (64, 255)}


def cases(tier):
    q = tier == 'quick'
    top = 3 if q else 8
    for f in IF:
        for n in range(top + 1):
            yield dict(name=f'tiles-{f}-{n}', fn='tiles', args={'f': f, 'n': n},
                       bounds=f'{n} {f} tiles, all contents')
            yield dict(name=f'pixels-{f}-{n}', fn='pixels', args={'f': f, 'n': n},
                       bounds=f'{n} {f} tiles, all pixels')
        for extra in (1, 31, 33) if f == 'I4' else (1, 63):
            yield dict(name=f'partial-{f}-{extra}', fn='partial', args={'f': f, 'extra': extra},
                       bounds=f'a tile followed by {extra} bytes')
        yield dict(name=f'wrong-{f}', fn='wrong', args={'f': f}, bounds='data of a wrong length')
    yield dict(name='mixed', fn='mixed', bounds='lists of both formats')
    for f in ('I10H1V1P4', 'I8'):
        for n in (0, 1, 2, 5) if q else (0, 1, 2, 5, 32, 1024):
            yield dict(name=f'map-{f}-{n}', fn='maps', args={'f': f, 'n': n},
                       bounds=f'{n} {f} entries, all contents')
        yield dict(name=f'entry-{f}', fn='entry', args={'f': f}, bounds='all parameters')
        yield dict(name=f'value-{f}', fn='value', args={'f': f}, bounds='all values')


def tiles(e, f, n):
    fmt = g.ImageFormat[f]
    size, _ = IF[f]
    d = e.bytes('d', size * n)
    ts = g.loadImageTiles(d, fmt)
    e.check(len(ts) == n, 'number of tiles')
    for i, t in enumerate(ts):
        e.check(t.format is fmt, 'format')
        px = t.pixels
        e.check(len(px) == 64, 'number of pixels')
        for j in range(64):
            if f == 'I4':
                b = d[size * i + j // 2]
                want = b >> 4 if j % 2 else b & 15
            else:
                want = d[size * i + j]
            e.check_eq(px[j], want, f'pixel {j} of tile {i}')
    e.check_eq(g.saveImageTiles(ts), d, 'saved tiles')
    p = e.path('t')
    e.writefile(p, d)
    us = g.loadImageTilesFromFile(p, fmt)
    e.check_eq([u.pixels for u in us], [t.pixels for t in ts], 'tiles loaded from a file')
    q = e.path('u')
    g.saveImageTilesToFile(us, q)
    e.check_eq(e.readfile(q), d, 'tiles saved to a file')


def pixels(e, f, n):
    fmt = g.ImageFormat[f]
    _, top = IF[f]
    px = [[e.int(f'p{i}_{j}', 0, top) for j in range(64)] for i in range(n)]
    ts = [g.ImageTile.fromPixels(list(p), fmt) for p in px]
    if n and bool(e.bool('blank')):
        t = g.ImageTile(None, fmt)
        e.check_eq(t.pixels, [0] * 64, 'blank tile')
        t.pixels = list(px[0])
        ts[0] = t
    d = g.saveImageTiles(ts)
    e.check_eq([t.pixels for t in g.loadImageTiles(d, fmt)], px, 'pixels')
    e.check_eq([t.pixels for t in ts], px, 'saving keeps the pixels')
    for t in ts:
        e.check_eq(g.ImageTile(t.save(), fmt).pixels, t.pixels, 'single tile')


def partial(e, f, extra):
    fmt = g.ImageFormat[f]
    size, _ = IF[f]
    d = e.bytes('d', size + extra)
    ts = g.loadImageTiles(d, fmt)
    n = (size + extra) // size
    e.check(len(ts) == n, 'incomplete tiles are ignored')
    e.check_eq(g.saveImageTiles(ts), d[:n * size], 'complete tiles')


def wrong(e, f):
    size, _ = IF[f]
    for n in (0, 1, size - 1, size + 1, 96 - size, 2 * size):
        if n != size:
            e.check(e.raises(ValueError, g.ImageTile, e.bytes(f'd{n}', n), g.ImageFormat[f]) is not None,
                    'wrong length is refused')
    e.check(e.raises(ValueError, g.ImageTile, None, 1) is not None, 'wrong format is refused')
    e.check(e.raises(ValueError, g.loadImageTiles, b'', 'I4') is not None, 'wrong format is refused')


def mixed(e):
    a, b = g.ImageTile(None, g.ImageFormat.I4), g.ImageTile(None, g.ImageFormat.I8)
    n = e.pick('n', 2, 4)
    i = e.pick('i', 0, 3)
    if i >= n:
        e.skip()
    ts = [b if j == i else a for j in range(n)]
    e.check(e.raises(ValueError, g.saveImageTiles, ts) is not None, 'mixed formats are refused')
    a, b = g.TilemapTile(0), g.TilemapTile(0, g.TilemapFormat.I8)
    ts = [b if j == i else a for j in range(n)]
    e.check(e.raises(ValueError, g.saveTilemapTiles, ts) is not None, 'mixed formats are refused')


def params(t):
    return [t.tileNum, t.hFlip, t.vFlip, t.paletteNum]


def maps(e, f, n):
    fmt = g.TilemapFormat[f]
    w = 1 if f == 'I8' else 2
    d = e.bytes('d', w * n)
    ts = g.loadTilemapTiles(d, fmt)
    e.check(len(ts) == n, 'number of entries')
    for i, t in enumerate(ts):
        e.check(t.format is fmt, 'format')
        v = d[i] if w == 1 else d[2 * i] | d[2 * i + 1] << 8
        if w == 1:
            e.check_eq(t.tileNum, v, 'tile number')
        else:
            e.check_eq(t.tileNum, v & 0x3FF, 'tile number')
            e.check_eq(t.hFlip, v >> 10 & 1 == 1, 'horizontal flip')
            e.check_eq(t.vFlip, v >> 11 & 1 == 1, 'vertical flip')
            e.check_eq(t.paletteNum, v >> 12, 'palette')
    e.check_eq(g.saveTilemapTiles(ts), d, 'saved entries')
    p = e.path('t')
    e.writefile(p, d)
    us = g.loadTilemapTilesFromFile(p, fmt)
    e.check_eq([params(u) for u in us], [params(t) for t in ts], 'entries loaded from a file')
    q = e.path('u')
    g.saveTilemapTilesToFile(us, q)
    e.check_eq(e.readfile(q), d, 'entries saved to a file')


def entry(e, f):
    fmt = g.TilemapFormat[f]
    small = f == 'I8'
    num = e.int('num', 0, 255 if small else 1023)
    h, v = e.bool('h'), e.bool('v')
    pal = e.int('pal', 0, 15)
    t = g.TilemapTile.fromParameters(num, fmt, h, v, pal)
    d = g.saveTilemapTiles([t, t])
    e.check(len(d) == (2 if small else 4), 'length')
    for u in g.loadTilemapTiles(d, fmt):
        e.check_eq(u.tileNum, num, 'tile number')
        if not small:
            e.check_eq(params(u), [num, h, v, pal], 'parameters')
    e.check_eq(params(t), [num, h, v, pal], 'saving keeps the parameters')


def value(e, f):
    fmt = g.TilemapFormat[f]
    small = f == 'I8'
    v = e.int('v', 0, 0xFFFF)
    keep = v & 0xFF if small else v
    t = g.TilemapTile(v, fmt)
    e.check_eq(t.value, keep, 'value')
    e.check_eq(t.tileNum, v & (0xFF if small else 0x3FF), 'tile number')
    w = e.int('w', 0, 0xFFFF)
    t.value = w
    e.check_eq(t.value, w & 0xFF if small else w, 'value')
    e.check_eq(t.tileNum, w & (0xFF if small else 0x3FF), 'tile number')
    e.check(e.raises(ValueError, g.TilemapTile, 0, g.ImageFormat.I8) is not None, 'wrong format is refused')
