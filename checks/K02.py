"""K02: palettes survive saving and loading."""

import ndspy.color as color
from refs.bin import p16

ASSUMPTIONS = ['palettes of up to 40 colours (and 256) with all colours; an odd last byte is not part of a colour']


def cases(tier):
    for n in list(range(0, 41)) + [255, 256]:
        yield dict(name=f'colors{n}', fn='colors', args={'n': n}, bounds=f'palettes of {n} colours')
        yield dict(name=f'data{n}', fn='data', args={'n': n}, bounds=f'palette data of {n} colours, with or without an odd byte')
    yield dict(name='files', fn='files', bounds='palettes of 0..3 colours in files, over an existing file')
    yield dict(name='alpha', fn='alpha', bounds='colours without alpha value')


def mk(e, n):
    return [(e.int(f'r{i}', 0, 31), e.int(f'g{i}', 0, 31), e.int(f'b{i}', 0, 31), e.int(f'a{i}', 0, 1)) for i in range(n)]


def raw(cs):
    d = b''
    for r, g, b, a in cs:
        d = d + p16(r | g << 5 | b << 10 | a << 15)
    return d


def colors(e, n):
    cs = mk(e, n)
    d = color.savePalette(cs)
    e.check_eq(d, raw(cs), 'palette data')
    e.check_eq([tuple(c) for c in color.loadPalette(d)], cs, 'loaded palette')
    e.check_eq(color.savePalette(color.loadPalette(d)), d, 'saving again gives the same data')


def data(e, n):
    odd = e.choice('odd', [0, 1])
    d = e.bytes('d', 2 * n + odd)
    cs = color.loadPalette(d)
    e.check(len(cs) == n, 'number of colours')
    e.check_eq(color.savePalette(cs), d[:2 * n], 'saving gives the data')
    for i, c in enumerate(cs):
        v = d[2 * i] | d[2 * i + 1] << 8
        e.check_eq((c.r, c.g, c.b, c.a), (v & 31, v >> 5 & 31, v >> 10 & 31, v >> 15), f'colour {i}')


def files(e):
    cs = mk(e, e.pick('n', 0, 3))
    p = e.path('pal.bin')
    if e.bool('old'):
        e.writefile(p, bytes(20))
    color.savePaletteToFile(cs, p)
    e.check_eq(e.readfile(p), raw(cs), 'file contents')
    e.check_eq([tuple(c) for c in color.loadPaletteFromFile(p)], cs, 'loaded palette')


def alpha(e):
    cs = mk(e, 2)
    e.check_eq(color.savePalette([c[:3] for c in cs]), raw([c[:3] + (1,) for c in cs]), 'opaque by default')
