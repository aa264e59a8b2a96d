"""X01: texture files survive saving and loading."""

import ndspy.color as color
import ndspy.texture as tex
from refs import texref
from refs.bin import u16, u32, header

ASSUMPTIONS = ['names have 0..16 Latin-1 characters and do not end in NUL; textures have the amount of data '
               'their size and format need; palettes have at least 4 colours',
               'up to 4 textures (quick: 3) and palettes per file; texture data below 512 KB in total']
FMT = {0: 'UNKNOWN_0', 1: 'A3I5', 2: 'I2', 3: 'I4', 4: 'I8', 5: 'TEXELED', 6: 'A5I3', 7: 'A1BGR5'}


def cases(tier):
    q = tier == 'quick'
    yield dict(name='empty', fn='roundtrip', args={'ts': [], 'ps': []}, bounds='no textures, no palettes')
    for f in FMT:
        yield dict(name=f'one-{FMT[f]}', fn='roundtrip', args={'ts': [(f, 8, 8)], 'ps': [4]},
                   bounds=f'one {FMT[f]} texture, all fields and data')
    for f in FMT:
        for w in (8, 16, 64, 1024):
            for h in (8, 32, 128, 512, 1024):
                if f and w * h * texref.BITS[f][0] // 8 < 0x80000:
                    yield dict(name=f'size-{FMT[f]}-{w}x{h}', fn='roundtrip',
                               args={'ts': [(2, 8, 8), (f, w, h), (5, 8, 8)], 'ps': [], 'fix': 1},
                               bounds=f'{w}x{h} {FMT[f]}, opaque contents')
    mixes = [[2, 3], [5, 5], [5, 2, 5], [7, 5, 1], [6, 4, 3], [5, 5, 5], [2, 2, 2], [0, 5, 2]]
    if not q:
        mixes += [[a, b, c, 5] for a in FMT for b in FMT for c in (2, 5)]
    for m in mixes:
        yield dict(name='mix-' + '-'.join(map(str, m)), fn='roundtrip',
                   args={'ts': [(f, 8, 8 << i % 2) for i, f in enumerate(m)], 'ps': [4] * (len(m) % 3)},
                   bounds=f'formats {m}')
    for ps in ([4], [4, 4], [8, 4], [4, 16, 8], [256], [32, 256, 4, 4]):
        yield dict(name='pal-' + '-'.join(map(str, ps)), fn='roundtrip', args={'ts': [], 'ps': ps},
                   bounds=f'palettes of {ps} colours')
        yield dict(name='samename-' + '-'.join(map(str, ps)), fn='roundtrip',
                   args={'ts': [(2, 8, 8)] * 2, 'ps': ps, 'same': 1},
                   bounds=f'textures and palettes with equal names and fields, palettes of {ps} colours')
    for n in range(0, 17):
        yield dict(name=f'name{n}', fn='names', args={'n': n}, bounds=f'all names of {n} characters')
    yield dict(name='longname', fn='longname', bounds='names of 17 and more characters')
    for k in range(6):
        yield dict(name=f'foreign{k}', fn='foreign', args={'k': k}, bounds='file of another tool')
    yield dict(name='params', fn='params', bounds='all parameter words')
    for wrong in ('w', 'h'):
        yield dict(name=f'badsize-{wrong}', fn='badsize', args={'wrong': wrong}, bounds='all sizes up to 2048')
    yield dict(name='baddata', fn='baddata', bounds='wrong amounts of data')
    yield dict(name='many', fn='many', bounds='255 textures and palettes')


def mkname(e, key, n):
    s = e.str(key, n, 0, 255)
    if n:
        e.assume(e.eq(s[n - 1:], '\0') == False)
    return s


def mktex(e, i, f, w, h, fix=False, nm=None):
    a, b = texref.sizes(f, w, h)
    big = a > 300
    d1 = e.blob(f'd{i}', a, a) if big else e.bytes(f'd{i}', a)
    d2 = e.blob(f'e{i}', b, b) if big else e.bytes(f'e{i}', b)
    k = f'_{i}'
    if fix:
        v = dict(u0=1, u2=2, flags=[False] * 4, c0=False, mode=1, u4=9)
    else:
        v = dict(u0=e.int('tu0' + k, 0, 65535), u2=e.int('tu2' + k, 0, 65535),
                 flags=[e.bool(f'fl{j}' + k) for j in range(4)], c0=e.bool('c0' + k),
                 mode=e.pick('mode' + k, 0, 3) if i == 0 else i % 4, u4=e.int('tu4' + k, 0, 0xFFFFFFFF))
    nm = mkname(e, 'tn' + k, 3 + i) if nm is None else nm
    v.update(name=nm, fmt=f, w=w, h=h, d1=d1, d2=d2)
    return v


def mkpal(e, i, n, nm=None):
    k = f'_{i}'
    cols = [tuple(e.int(f'p{j}{ch}' + k, 0, 31 if ch != 'a' else 1) for ch in 'rgba') for j in range(n)]
    return dict(name=mkname(e, 'pn' + k, 16 - i) if nm is None else nm, u0=e.int('pu0' + k, 0, 65535),
                u2=e.int('pu2' + k, 0, 65535), h2=e.int('ph2' + k, 0, 65535), colors=cols)


def texobj(v):
    return tex.Texture.fromFlags(v['u0'], v['u2'], *v['flags'], v['w'], v['h'], tex.TextureFormat(v['fmt']), v['c0'],
                                 tex.TextureCoordinatesTransformationMode(v['mode']), v['u4'], v['d1'], v['d2'])


def palobj(v):
    return tex.Palette.fromColors(v['u0'], v['u2'], v['h2'], [color.ColorTuple(*c) for c in v['colors']])


def check_tex(e, t, v, what):
    e.check_eq([t.unk00, t.unk02, t.unk04], [v['u0'], v['u2'], v['u4']], what + ': unknown values')
    e.check_eq([t.repeatS, t.repeatT, t.mirrorS, t.mirrorT], v['flags'], what + ': flags')
    e.check(t.size == (v['w'], v['h']), what + ': size')
    e.check(t.width == v['w'] and t.height == v['h'], what + ': size')
    e.check(t.format is tex.TextureFormat(v['fmt']), what + ': format')
    e.check_eq(t.isColor0Transparent, v['c0'], what + ': transparent colour 0')
    e.check(t.coordsTransformationMode is tex.TextureCoordinatesTransformationMode(v['mode']), what + ': mode')
    e.check_eq(t.data1, v['d1'], what + ': data')
    e.check_eq(t.data2, v['d2'], what + ': second data')


def check_pal(e, p, v, what):
    e.check_eq([p.unk00, p.unk02, p.unkHeader02], [v['u0'], v['u2'], v['h2']], what + ': unknown values')
    e.check_eq([tuple(c) for c in p.colors], v['colors'], what + ': colours')


def check_all(e, n, unk, ts, ps):
    e.check_eq([n.unk08, n.unk10, n.unk18, n.unk20, n.unk2C, n.unk32], unk, 'unknown values')
    e.check(len(n.textures) == len(ts), 'number of textures')
    e.check(len(n.palettes) == len(ps), 'number of palettes')
    for i, (nm, t) in enumerate(n.textures):
        e.check_eq(nm, ts[i]['name'], f'name of texture {i}')
        check_tex(e, t, ts[i], f'texture {i}')
    for i, (nm, p) in enumerate(n.palettes):
        e.check_eq(nm, ps[i]['name'], f'name of palette {i}')
        check_pal(e, p, ps[i], f'palette {i}')


def unknowns(e):
    return [e.int(f'unk{i}', 0, 0xFFFFFFFF if i < 5 else 0xFFFF) for i in range(6)]


def roundtrip(e, ts, ps, fix=0, same=0):
    ts = [mktex(e, i, *t, fix=fix, nm='same' if same else None) for i, t in enumerate(ts)]
    ps = [mkpal(e, i, n, nm='same' if same else None) for i, n in enumerate(ps)]
    if same:
        for x in ts + ps:
            x['u0'] = x['u2'] = x['u4'] = x['h2'] = 3
    unk = unknowns(e)
    n = tex.NSBTX.fromTexturesAndPalettes(*unk, [(t['name'], texobj(t)) for t in ts],
                                          [(p['name'], palobj(p)) for p in ps])
    d = n.save()
    check_all(e, n, unk, ts, ps)
    check_all(e, tex.NSBTX(d), unk, ts, ps)
    wellformed(e, d, unk, ts, ps)


def latin(s):
    return s.encode('latin-1')


def wellformed(e, d, unk, ts, ps):
    header(e, d, b'BTX0', 1, 1, 'file')
    e.check_eq(u32(d, 0x10), 0x14, 'block offset')
    b = d[0x14:]
    e.check_eq(b[:4], b'TEX0', 'block magic')
    e.check_eq(u32(b, 4), len(b), 'block size')
    e.check_eq([u32(b, 8), u32(b, 0x10), u32(b, 0x18), u32(b, 0x20), u32(b, 0x2C), u16(b, 0x32)], unk, 'unknowns')
    toff, poff = e.concrete(u16(b, 0xE)), e.concrete(u32(b, 0x34))
    td, o1, o2, pd = [e.concrete(u32(b, x)) for x in (0x14, 0x24, 0x28, 0x38)]
    e.check_eq(u16(b, 0x1E), toff, 'offset of compressed texture infos')
    n1 = sum(len(t['d1']) for t in ts if t['fmt'] != 5)
    n2 = sum(len(t['d1']) for t in ts if t['fmt'] == 5)
    n3 = sum(2 * len(p['colors']) for p in ps)
    e.check_eq([u16(b, 0xC) * 8, u16(b, 0x1C) * 8, u16(b, 0x30) * 8], [n1, n2, n3], 'sizes of the data areas')
    ents, tl = texref.read_infoblock(e, b, toff, 8, 'textures')
    pents, pl = texref.read_infoblock(e, b, poff, 4, 'palettes')
    e.check(len(ents) == len(ts) and len(pents) == len(ps), 'number of entries')
    spans = [(0, 0x3C), (toff, toff + tl), (poff, poff + pl)]
    for (nm, a, c, x), t in zip(ents, ts):
        e.check_eq(nm, texref.name(latin(t['name'])), 'name')
        e.check_eq([a, c, u32(x, 4)], [t['u0'], t['u2'], t['u4']], 'texture fields')
        v = dict(t, flags=sum(e.ite(f, 1 << i, 0) for i, f in enumerate(t['flags'])), c0=e.ite(t['c0'], 1, 0))
        e.check_eq(u16(x, 2), texref.params(v), 'texture parameters')
        o = e.concrete(u16(x, 0)) * 8
        if t['fmt'] == 5:
            e.check_eq(b[o1 + o:o1 + o + len(t['d1'])], t['d1'], 'compressed data')
            e.check_eq(b[o2 + o // 2:o2 + o // 2 + len(t['d2'])], t['d2'], 'compressed infos')
            spans += [(o1 + o, o1 + o + len(t['d1'])), (o2 + o // 2, o2 + o // 2 + len(t['d2']))]
            e.check(o + len(t['d1']) <= n2, 'inside the area')
        else:
            e.check_eq(b[td + o:td + o + len(t['d1'])], t['d1'], 'texture data')
            spans.append((td + o, td + o + len(t['d1'])))
            e.check(o + len(t['d1']) <= n1, 'inside the area')
    for (nm, a, c, x), p in zip(pents, ps):
        e.check_eq(nm, texref.name(latin(p['name'])), 'name')
        e.check_eq([a, c, u16(x, 2)], [p['u0'], p['u2'], p['h2']], 'palette fields')
        o = e.concrete(u16(x, 0)) * 8 + pd
        for i, (r, g, bl, al) in enumerate(p['colors']):
            e.check_eq(u16(b, o + 2 * i), r | g << 5 | bl << 10 | al << 15, 'palette data')
        spans.append((o, o + 2 * len(p['colors'])))
        e.check(o - pd + 2 * len(p['colors']) <= n3, 'inside the area')
    spans = sorted(s for s in spans if s[0] < s[1])
    for (a, x), (y, z) in zip(spans, spans[1:]):
        e.check(x <= y, 'parts do not overlap')
    e.check(spans[-1][1] <= len(b), 'parts lie inside the block')


def names(e, n):
    t = mktex(e, 0, 2, 8, 8, True, mkname(e, 'a', n))
    u = mktex(e, 1, 2, 8, 8, True, mkname(e, 'b', 16 - n))
    p = mkpal(e, 0, 4, mkname(e, 'c', n))
    nn = tex.NSBTX.fromTexturesAndPalettes(1, 2, 3, 4, 5, 6, [(t['name'], texobj(t)), (u['name'], texobj(u))],
                                           [(p['name'], palobj(p))])
    check_all(e, tex.NSBTX(nn.save()), [1, 2, 3, 4, 5, 6], [t, u], [p])


def longname(e):
    n = e.pick('n', 17, 20)
    t = mktex(e, 0, 2, 8, 8, True, 'ok')
    bad = e.bool('palette')
    nn = tex.NSBTX.fromTexturesAndPalettes(
        0, 0, 0, 0, 0, 0, [('x' * 16 if bad else 'x' * n, texobj(t)), ('b', texobj(t))],
        [('x' * n if bad else 'x' * 16, palobj(mkpal(e, 0, 4, 'p')))])
    e.check(e.raises(ValueError, nn.save) is not None, 'names that do not fit are refused')


def foreign(e, k):
    kw = dict(name=b'')
    ts = [mktex(e, 0, 5, 8, 8), mktex(e, 1, 2, 8, 8), mktex(e, 2, 5, 16, 8)]
    ps = [mkpal(e, 0, 8), mkpal(e, 1, 4), mkpal(e, 2, 16)]
    order = [[0, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1], [0, 2, 1], [1, 0, 2]][k]
    gap = bytes(16 * k)
    raw = []
    for t in ts:
        raw.append(dict(t, name=latin(t['name']),
                        flags=sum(e.ite(f, 1 << i, 0) for i, f in enumerate(t['flags'])), c0=e.ite(t['c0'], 1, 0)))
    rawp = []
    for i, p in enumerate(ps):
        rp = dict(p, name=latin(p['name']),
                  data=b''.join(texref.p16(r | g << 5 | b << 10 | a << 15) for r, g, b, a in p['colors']))
        rawp.append(rp)
    if k % 2:
        # a palette without data of its own
        ps.append(mkpal(e, 3, 0))
        ps[3]['colors'] = ps[1]['colors']
        rawp.append(dict(ps[3], name=latin(ps[3]['name']), share=1, data=b''))
    unk = unknowns(e)
    d = texref.nsbtx(texref.tex0(unk, raw, rawp, order, gap))
    n = tex.NSBTX(d)
    check_all(e, n, unk, ts, ps)
    check_all(e, tex.NSBTX(n.save()), unk, ts, ps)


def params(e):
    p = e.int('p', 0, 0xFFFF)
    t = tex.Texture(1, 2, p, 3, b'', b'')
    e.check_eq([t.repeatS, t.repeatT, t.mirrorS, t.mirrorT], [p >> i & 1 == 1 for i in range(4)], 'flags')
    e.check_eq(t.width, 8 << (p >> 4 & 7), 'width')
    e.check_eq(t.height, 8 << (p >> 7 & 7), 'height')
    e.check_eq(int(t.format), p >> 10 & 7, 'format')
    e.check_eq(t.isColor0Transparent, p >> 13 & 1 == 1, 'transparent colour 0')
    e.check_eq(int(t.coordsTransformationMode), p >> 14, 'mode')
    e.check_eq(t.save()[2], p, 'saved parameters')


def badsize(e, wrong):
    n = e.int('n', 0, 2048)
    t = tex.Texture(0, 0, 0, 0, b'', b'')
    t.size = (n, 8) if wrong == 'w' else (8, n)
    good = e.any([n == 8 << i for i in range(8)])
    e.check(good == (e.raises(ValueError, t.save) is None), 'only sizes that can be stored are saved')


def baddata(e):
    a, b = e.pick('a', 0, 4), e.pick('b', 0, 4)
    t = mktex(e, 0, 5, 8, 8, True, 't')
    o = texobj(t)
    o.data1, o.data2 = bytes(8 * a), bytes(4 * b)
    n = tex.NSBTX()
    n.textures = [('t', o)]
    e.check((a == b) == (e.raises(ValueError, n.save) is None), 'data areas must fit each other')
    c = e.pick('c', 0, 9)
    n = tex.NSBTX()
    n.palettes = [('p', tex.Palette.fromColors(0, 0, 0, [(0, 0, 0, 0)] * c))]
    e.check((c % 4 == 0) == (e.raises(ValueError, n.save) is None), 'palettes are a multiple of 4 colours')


def many(e):
    ts = [dict(u0=i, u2=2 * i, flags=[i % 2 == 0, False, True, i % 3 == 0], c0=i % 5 == 0, mode=i % 4, u4=i << 20,
               name=f't{i}', fmt=2, w=8, h=8, d1=e.bytes(f'd{i}', 16), d2=b'') for i in range(255)]
    ps = [dict(name=f'p{i}', u0=i, u2=i, h2=i, colors=[(i % 32, i // 32, 1, 0)] * 4) for i in range(255)]
    n = tex.NSBTX.fromTexturesAndPalettes(1, 2, 3, 4, 5, 6, [(t['name'], texobj(t)) for t in ts],
                                          [(p['name'], palobj(p)) for p in ps])
    check_all(e, tex.NSBTX(n.save()), [1, 2, 3, 4, 5, 6], ts, ps)
