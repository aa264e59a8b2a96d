"""G02: rendering of tiles and tilemaps shows the right pixels."""

import ndspy.graphics2D as g

ASSUMPTIONS = ['8-bit tiles have 8 free pixels at a time, in any of the positions of the case; '
               'palettes have at most 64 colours (4-bit) or 32 (8-bit), with any channel values',
               'tile lists of up to 7 tiles; widths up to 4',
               'PIL is replaced by a recorder of mode, size and pixel bytes']


def cases(tier):
    q = tier == 'quick'
    for p in range(4):
        yield dict(name=f'tile-I4-pal{p}', fn='tile4', args={'pal': p}, bounds='all 64 pixels, 64 colours')
    for k in range(0, 8):
        yield dict(name=f'tile-I8-row{k}', fn='tile8', args={'row': k}, bounds='all pixels of a row, 32 colours')
    yield dict(name='tile-I8-pal', fn='tile8pal', bounds='second and third 8-bit palette')
    for f in ('I10H1V1P4', 'I8'):
        yield dict(name=f'entry-{f}', fn='entry', args={'f': f}, bounds='all entry values, all pixels')
        yield dict(name=f'offset-{f}', fn='offset', args={'f': f}, bounds='tile numbers against an offset')
    for w in range(1, 4 if q else 6):
        for n in range(0, 8 if q else 13):
            yield dict(name=f'list-{w}-{n}', fn='tilelist', args={'w': w, 'n': n},
                       bounds=f'{n} tiles, {w} in a row')
            yield dict(name=f'map-{w}-{n}', fn='tilemap', args={'w': w, 'n': n},
                       bounds=f'{n} entries, {w} in a row')
    yield dict(name='list-default', fn='tilelist', args={'w': None, 'n': 33}, bounds='33 tiles, default width')
    yield dict(name='at', fn='at', bounds='all positions and widths up to 5, 0..11 tiles')
    yield dict(name='put', fn='put', bounds='all positions and widths up to 5, 0..11 tiles')


def palette(e, n, name='c'):
    return [tuple(e.int(f'{name}{i}{ch}', 0, 31 if ch != 'a' else 1) for ch in 'rgba') for i in range(n)]


def shown(e, px, colors, base):
    """Colour of a pixel."""
    r, gr, b, _ = colors[base + px]
    z = px == 0
    return (e.ite(z, 0, r), e.ite(z, 0, gr), e.ite(z, 0, b), e.ite(z, 0, 1))


def check_img(e, img, want, w, h):
    e.check(img.size == (w, h), 'image size')
    e.check(img.mode == 'RGBA', 'image mode')
    d = img.tobytes()
    e.check(len(d) == w * h * 4, 'amount of image data')
    for i, c in enumerate(want):
        for k in range(3):
            e.check_eq(d[4 * i + k], c[k] << 3 | c[k] >> 2, f'image pixel {i}')
        e.check_eq(d[4 * i + 3], c[3] * 255, f'image alpha {i}')


def check_px(e, got, want):
    e.check(len(got) == len(want), 'number of pixels')
    for i, (a, b) in enumerate(zip(got, want)):
        e.check_eq(tuple(a), b, f'pixel {i}')


def tile4(e, pal):
    colors = palette(e, 64)
    px = [e.int(f'p{i}', 0, 15) for i in range(64)]
    t = g.ImageTile.fromPixels(list(px), g.ImageFormat.I4)
    want = [shown(e, p, colors, 16 * pal) for p in px]
    check_px(e, t.render(list(colors), pal), want)
    check_img(e, t.renderAsImage(list(colors), pal), want, 8, 8)
    if not pal:
        check_px(e, t.render(list(colors)), want)


def tile8(e, row):
    colors = palette(e, 32)
    px = [(i * 5 + row) % 32 for i in range(64)]
    for i in range(8):
        px[row * 8 + i] = e.int(f'p{i}', 0, 31)
    t = g.ImageTile.fromPixels(list(px), g.ImageFormat.I8)
    want = [shown(e, p, colors, 0) for p in px]
    check_px(e, t.render(list(colors)), want)
    check_img(e, t.renderAsImage(list(colors)), want, 8, 8)


def tile8pal(e):
    pal = e.pick('pal', 1, 2)
    colors = [(i % 32, i // 32, (i * 7) % 32, 0) for i in range(768)]
    px = [e.int(f'p{i}', 0, 255) for i in range(4)] + [(i * 37) % 256 for i in range(60)]
    t = g.ImageTile.fromPixels(list(px), g.ImageFormat.I8)
    check_px(e, t.render(list(colors), pal), [shown(e, p, colors, 256 * pal) for p in px])


def pattern(k):
    """Tile pixels that differ between tiles and positions."""
    return [(i * (2 * k + 1) + i // 8 + k) % 16 for i in range(64)]


def placed(e, px, colors, base, h, v):
    """The colours of a tile, flipped as asked."""
    out = []
    for y in range(8):
        for x in range(8):
            xx = e.ite(h, 7 - x, x)
            yy = e.ite(v, 7 - y, y)
            out.append((xx, yy))
    res = []
    for i, (xx, yy) in enumerate(out):
        y, x = divmod(i, 8)
        a = [shown(e, px[8 * (7 - y if fv else y) + (7 - x if fh else x)], colors, base)
             for fh in (0, 1) for fv in (0, 1)]
        res.append(tuple(e.ite(h, e.ite(v, a[3][k], a[2][k]), e.ite(v, a[1][k], a[0][k]))
                         for k in range(4)))
    return res


def entry(e, f):
    fmt = g.TilemapFormat[f]
    px = [e.int(f'p{i}', 0, 15) for i in range(64)]
    tile = g.ImageTile.fromPixels(list(px), g.ImageFormat.I4)
    colors = palette(e, 48)
    h, v = e.bool('h'), e.bool('v')
    pal = e.pick('pal', 0, 2)
    num = e.pick('num', 0, 2)
    t = g.TilemapTile.fromParameters(num, fmt, h, v, pal)
    if f == 'I8':
        h = v = False
        pal = 0
    want = placed(e, px, colors, 16 * pal, h, v)
    check_px(e, t.renderSingle(tile, list(colors)), want)
    check_img(e, t.renderSingleAsImage(tile, list(colors)), want, 8, 8)
    other = g.ImageTile(None, g.ImageFormat.I4)
    ts = [tile if i == num else other for i in range(3)]
    check_px(e, t.render(ts, list(colors)), want)
    check_img(e, t.renderAsImage(ts, list(colors)), want, 8, 8)


def offset(e, f):
    fmt = g.TilemapFormat[f]
    ts = [g.ImageTile.fromPixels(pattern(k), g.ImageFormat.I4) for k in range(3)]
    colors = palette(e, 16)
    off = e.int('off', 0, 300)
    num = e.int('num', 0, 255)
    t = g.TilemapTile.fromParameters(num, fmt)
    fn = [lambda: t.render(ts, colors, off), lambda: t.renderAsImage(ts, colors, off)][e.pick('img', 0, 1)]
    exc = e.raises((ValueError, IndexError), fn)
    if exc is not None:
        e.check(e.any([num < off, num >= off + 3]), 'tile is refused only if missing')
        e.check_eq(isinstance(exc, ValueError), num < off, 'kind of error')
        return
    e.check(e.all([num >= off, num < off + 3]), 'missing tiles are refused')
    k = e.concrete(num - off)
    want = [shown(e, p, colors, 0) for p in pattern(k)]
    if isinstance(e.result, list):
        check_px(e, e.result, want)
    else:
        check_img(e, e.result, want, 8, 8)


def grid(tiles, n, w):
    """Pixels of an image made of tiles; None where there is none."""
    h = (n + w - 1) // w
    out = []
    for y in range(8 * h):
        for x in range(8 * w):
            k = y // 8 * w + x // 8
            out.append(tiles[k][y % 8 * 8 + x % 8] if k < n else (0, 0, 0, 0))
    return out, 8 * w, 8 * h


def tilelist(e, w, n):
    pal = e.pick('pal', 0, 1)
    colors = palette(e, 32)
    pats = [pattern(k) for k in range(n)]
    for k in range(n):
        pats[k][e.pick(f'q{k}', 9, 9)] = e.int(f'p{k}', 0, 15)
    ts = [g.ImageTile.fromPixels(list(p), g.ImageFormat.I4) for p in pats]
    want, ww, hh = grid([[shown(e, p, colors, 16 * pal) for p in pat] for pat in pats], n, w or 32)
    kw = {} if w is None else {'width': w}
    check_px(e, g.renderImageTiles(ts, colors, pal, **kw), want)
    check_img(e, g.renderImageTilesAsImage(ts, colors, pal, **kw), want, ww, hh)


def tilemap(e, w, n):
    colors = palette(e, 32)
    off = e.pick('off', 0, 2)
    pats = [pattern(k) for k in range(3)]
    pats[1][17] = e.int('p', 0, 15)
    ts = [g.ImageTile.fromPixels(list(p), g.ImageFormat.I4) for p in pats]
    maps, want = [], []
    for k in range(n):
        num, pal = (k * 2 + 1) % 3, k % 2
        h, v = (e.bool(f'h{k}'), e.bool(f'v{k}')) if k < 2 else (k % 3 == 0, k % 2 == 0)
        maps.append(g.TilemapTile.fromParameters(num + off, g.TilemapFormat.I10H1V1P4, h, v, pal))
        want.append(placed(e, pats[num], colors, 16 * pal, h, v))
    want, ww, hh = grid(want, n, w)
    check_px(e, g.renderTilemapTiles(maps, ts, colors, w, off), want)
    check_img(e, g.renderTilemapTilesAsImage(maps, ts, colors, w, off), want, ww, hh)


def at(e):
    n, w = e.pick('n', 0, 11), e.pick('w', 1, 5)
    x, y = e.int('x', -3, 8), e.int('y', -3, 14)
    tiles = [object() for _ in range(n)]
    got = g.tileAt(tiles, x, y, width=w)
    inside = e.all([x >= 0, y >= 0, x < w, y * w + x < n])
    if got is None:
        e.check(inside == False, 'tiles are found')
        return
    e.check(inside, 'nothing is found outside')
    e.check_eq(e.concrete(y * w + x), tiles.index(got), 'right tile')


def put(e):
    n, w = e.pick('n', 0, 11), e.pick('w', 1, 5)
    x, y = e.int('x', -3, 8), e.int('y', -3, 14)
    tiles = [object() for _ in range(n)]
    old, new = list(tiles), object()
    got = g.putTile(tiles, x, y, new, width=w)
    inside = e.all([x >= 0, y >= 0, x < w, y * w + x < n])
    e.check(inside == bool(got), 'result tells whether the tile was placed')
    e.check(len(tiles) == n, 'number of tiles')
    k = e.concrete(y * w + x) if got else None
    for i in range(n):
        e.check(tiles[i] is (new if i == k else old[i]), 'only that tile is replaced')
