"""K01: colour conversions."""

import ndspy.color as color

ASSUMPTIONS = ['all colours: 5-bit, 1-bit and 8-bit channels over their whole ranges']

F = color.ColorFormat
FORMATS = ['INT_16', 'BYTES_2', 'TUPLE_RGB5A1', 'TUPLE_RGB5A5', 'TUPLE_RGBA255']


def cases(tier):
    for f in FORMATS:
        for t in FORMATS:
            yield dict(name=f'convert-{f}-{t}', fn='convert', args={'f': f, 't': t},
                       bounds=f'every colour in {f} converted to {t}')
    for f in FORMATS[:4]:
        for t in FORMATS:
            yield dict(name=f'back-{f}-{t}', fn='back', args={'f': f, 't': t},
                       bounds=f'every colour in {f} converted to {t} and back')
    for n in ('unpack', 'pack', 'unpack255', 'pack255', 'expand', 'contract', 'loadsave', 'nearest', 'monotonic', 'luts',
              'defaults'):
        yield dict(name=n, fn=n, bounds='every colour')


def ex(c):
    """Five bits to eight: the high bits are repeated."""
    return c * 8 + c // 4


def rgb5(e, p=''):
    return [e.int(p + c, 0, 31) for c in 'rgb']


def src(e, f):
    """A colour in the format f: (value, (r5, g5, b5) or None, (r8, g8, b8), alpha 0..255 scale)."""
    if f in ('INT_16', 'BYTES_2', 'TUPLE_RGB5A1'):
        r, g, b = rgb5(e)
        a = e.int('a', 0, 1)
        v = r + g * 32 + b * 1024 + a * 32768
        x = v if f == 'INT_16' else bytes([v % 256, v // 256]) if f == 'BYTES_2' else (r, g, b, a)
        return x, (r, g, b), a, 1
    if f == 'TUPLE_RGB5A5':
        r, g, b = rgb5(e)
        a = e.int('a', 0, 31)
        return (r, g, b, a), (r, g, b), a, 31
    r, g, b = [e.int(c, 0, 255) for c in 'rgb']
    a = e.int('a', 0, 255)
    return (r, g, b, a), (r, g, b), a, 255


def near5(e, v, c):
    """c is a five-bit value with the smallest distance to v after expansion."""
    def dist(k):
        return e.ite(ex(k) >= v, ex(k) - v, v - ex(k))
    return e.all([0 <= c, c <= 31] + [e.any([c == 31, dist(c) <= dist(c + 1)]), e.any([c == 0, dist(c) <= dist(c - 1)])])


def dst(e, f, t, got, rgb, a, amax):
    """got is the colour in the format t."""
    if t == 'BYTES_2':
        e.check(len(got) == 2, 'two bytes')
        got = got[0] + got[1] * 256
    if t in ('INT_16', 'BYTES_2'):
        e.check(e.all([0 <= got, got <= 0xFFFF]), '16 bits')
        got = (got & 31, got >> 5 & 31, got >> 10 & 31, got >> 15)
    else:
        e.check(len(got) == 4, 'four channels')
    e.check_eq((got.r, got.g, got.b, got.a) if hasattr(got, 'r') else got, tuple(got), 'channel names')
    for v, w in zip(rgb, got):
        if t == 'TUPLE_RGBA255':
            e.check_eq(w, v if amax == 255 else ex(v), 'channel')
        elif amax == 255:
            e.check(near5(e, v, w), 'channel is the nearest one')
        else:
            e.check_eq(w, v, 'channel')
    alpha = got[3]
    tmax = {'TUPLE_RGBA255': 255, 'TUPLE_RGB5A5': 31}.get(t, 1)
    if tmax == amax:
        e.check_eq(alpha, a, 'alpha')
    elif tmax == 1:
        e.check_eq(alpha, e.ite(a * 2 > amax, 1, 0), 'alpha')
    elif amax == 1:
        e.check_eq(alpha, e.ite(a == 1, tmax, 0), 'alpha')
    elif tmax == 255:
        e.check_eq(alpha, ex(a), 'alpha')
    else:
        e.check(near5(e, a, alpha), 'alpha is the nearest one')


def convert(e, f, t):
    x, rgb, a, amax = src(e, f)
    got = color.convert(x, getattr(F, f), getattr(F, t))
    e.out('got', got)
    dst(e, f, t, got, rgb, a, amax)


def back(e, f, t):
    x, rgb, a, amax = src(e, f)
    if amax == 31 and t in FORMATS[:3]:
        # the alpha value has fewer bits there
        e.assume(e.any([a == 0, a == 31]))
    y = color.convert(color.convert(x, getattr(F, f), getattr(F, t)), getattr(F, t), getattr(F, f))
    e.check_eq(tuple(y) if f.startswith('TUPLE') else y, x, 'the colour comes back')


def unpack(e):
    v = e.int('v', 0, 0xFFFF)
    c = color.unpack(v)
    e.check_eq(tuple(c), (v & 31, v >> 5 & 31, v >> 10 & 31, v >> 15), 'unpack')
    e.check_eq((c.r, c.g, c.b, c.a), tuple(c), 'names')
    e.check_eq(color.pack(*c), v, 'pack(unpack(v)) == v')


def pack(e):
    r, g, b = rgb5(e)
    a = e.int('a', 0, 1)
    v = color.pack(r, g, b, a)
    e.check_eq(v, r + 32 * g + 1024 * b + 32768 * a, 'pack')
    e.check_eq(tuple(color.unpack(v)), (r, g, b, a), 'unpack(pack(c)) == c')


def unpack255(e):
    v = e.int('v', 0, 0xFFFF)
    c = color.unpack255(v)
    e.check_eq(tuple(c), (ex(v & 31), ex(v >> 5 & 31), ex(v >> 10 & 31), (v >> 15) * 255), 'unpack255')
    e.check_eq(tuple(c), tuple(color.expand(*color.unpack(v))), 'the same as expand(unpack(v))')
    e.check_eq(color.pack255(*c), v, 'pack255(unpack255(v)) == v')


def pack255(e):
    x = [e.int(c, 0, 255) for c in 'rgba']
    v = color.pack255(*x)
    e.check_eq(v, color.pack(*color.contract(*x)), 'the same as pack(contract(c))')
    dst(e, 'TUPLE_RGBA255', 'INT_16', v, x[:3], x[3], 255)


def expand(e):
    r, g, b = rgb5(e)
    a = e.int('a', 0, 1)
    c = color.expand(r, g, b, a)
    e.check_eq(tuple(c), (ex(r), ex(g), ex(b), 255 * a), 'expand')
    e.check_eq(tuple(color.contract(*c)), (r, g, b, a), 'contract(expand(c)) == c')


def contract(e):
    x = [e.int(c, 0, 255) for c in 'rgba']
    dst(e, 'TUPLE_RGBA255', 'TUPLE_RGB5A1', color.contract(*x), x[:3], x[3], 255)


def nearest(e):
    v, o = e.int('v', 0, 255), e.int('o', 0, 31)
    c = color.contract(v, 0, 0)[0]
    d1, d2 = ex(c) - v, ex(o) - v
    e.check(e.ite(d1 < 0, -d1, d1) <= e.ite(d2 < 0, -d2, d2), 'no other value is nearer')


def monotonic(e):
    a, b = e.int('a', 0, 31), e.int('b', 0, 31)
    e.assume(a < b)
    x, y = color.expand(a, 0, a)[0], color.expand(b, 0, b)[0]
    e.check(x < y, 'expansion is monotonic')
    c, d = e.int('c', 0, 255), e.int('d', 0, 255)
    e.assume(c < d)
    e.check(color.contract(0, 0, c)[2] <= color.contract(0, 0, d)[2], 'contraction is monotonic')
    e.check_eq(tuple(color.expand(0, 31, 0, 1)), (0, 255, 0, 255), 'ends')


def loadsave(e):
    d = e.bytes('d', 2)
    c = color.load(d)
    e.check_eq(tuple(c), tuple(color.unpack(d[0] + 256 * d[1])), 'load')
    e.check_eq(color.save(*c), d, 'save(load(d)) == d')


def luts(e):
    color.prepareLUTs()
    color.prepareLUTs()
    v = e.int('v', 0, 0xFFFF)
    r, g, b, a = v & 31, v >> 5 & 31, v >> 10 & 31, v >> 15
    e.check_eq(tuple(color.LUT_UNPACKED[v]), (r, g, b, a), 'LUT_UNPACKED')
    r, g, b, a = ex(r), ex(g), ex(b), 255 * a
    e.check_eq(tuple(color.LUT_UNPACKED_255[v]), (r, g, b, a), 'LUT_UNPACKED_255')
    for name, cs in (('RGBA', (r, g, b, a)), ('ARGB', (a, r, g, b)), ('BGRA', (b, g, r, a)), ('ABGR', (a, b, g, r))):
        t = getattr(color, f'LUT_{name}_255')
        e.check(len(t) == 0x10000, 'size')
        e.check_eq(t[v], cs[0] << 24 | cs[1] << 16 | cs[2] << 8 | cs[3], f'LUT_{name}_255')


def defaults(e):
    r, g, b = rgb5(e)
    e.check_eq(color.pack(r, g, b), color.pack(r, g, b, 1), 'pack: opaque by default')
    e.check_eq(tuple(color.expand(r, g, b)), tuple(color.expand(r, g, b, 1)), 'expand: opaque by default')
    e.check_eq(color.pack255(r, g, b), color.pack255(r, g, b, 255), 'pack255: opaque by default')
    e.check_eq(tuple(color.contract(r, g, b)), tuple(color.contract(r, g, b, 255)), 'contract: opaque by default')
    e.check_eq(color.save(r, g, b), color.save(r, g, b, 1), 'save: opaque by default')
