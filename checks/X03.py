"""X03: model files keep their contents when saved."""

import ndspy.model as model
import ndspy.texture as tex
from refs import mdlref, texref
from refs.bin import u32, header

ASSUMPTIONS = ['model blocks are built by an independent writer: up to 3 models with up to 2 materials, textures, '
               'palettes and polygons each; free contents, names and display list parameters',
               'display lists hold known commands or unknown ones without parameters']
CMDS = sorted(mdlref.PARAMS)


def cases(tier):
    q = tier == 'quick'
    for k, shape in enumerate([[], [(0, 0, 0, 0)], [(1, 1, 1, 1)], [(2, 1, 0, 1)], [(0, 2, 2, 1), (1, 0, 1, 2)],
                               [(1, 1, 1, 1)] * 3]):
        for t in range(6):
            yield dict(name=f'models{k}-tex{t}', fn='models', args={'shape': shape, 't': t},
                       bounds=f'models {shape}, texture block variant {t}')
    for i in range(0, len(CMDS), 4):
        yield dict(name=f'list{i}', fn='models', args={'shape': [(1, 1, 1, 1)], 't': 0, 'cmds': CMDS[i:i + 4] + [0, 0x41]},
                   bounds=f'display list of commands {CMDS[i:i + 4]}')
    yield dict(name='list-unknown', fn='models', args={'shape': [(1, 1, 1, 1)], 't': 0, 'cmds': [0x99, 0xFF, 0x40, 7]},
               bounds='display list with unknown commands')
    for n in range(0, 17, 2 if q else 1):
        yield dict(name=f'name{n}', fn='names', args={'n': n}, bounds=f'all model names of {n} bytes')
    yield dict(name='order', fn='order', bounds='blocks in either order, gaps between them')
    yield dict(name='nsbtx', fn='transfer', bounds='textures exported and imported')
    yield dict(name='edit', fn='edit', bounds='textures edited between loading and saving')


def texblock(e, t):
    """None, empty, with textures and palettes, only palettes, only textures."""
    if t == 0:
        return None, [0] * 6, [], []
    unk = [e.int(f'unk{i}', 0, 0xFFFFFFFF if i < 5 else 0xFFFF) for i in range(6)]
    ts, ps = [], []
    if t > 1:
        for i, f in enumerate((5, 2, 4)[:min(t, 3)]):
            a, b = texref.sizes(f, 8, 8)
            ts.append(dict(name=b'tex%d' % i, u0=e.int(f'tu0{i}', 0, 65535), u2=e.int(f'tu2{i}', 0, 65535),
                           flags=e.int(f'tf{i}', 0, 15), w=8, h=8, fmt=f, c0=i % 2, mode=t % 4,
                           u4=e.int(f'tu4{i}', 0, 0xFFFFFFFF), d1=e.bytes(f'td{i}', a), d2=e.bytes(f'te{i}', b)))
            ps.append(dict(name=b'pal%d' % i, u0=e.int(f'pu0{i}', 0, 65535), u2=e.int(f'pu2{i}', 0, 65535),
                           h2=e.int(f'ph{i}', 0, 65535), data=e.bytes(f'pd{i}', 8 + 8 * i)))
    if t == 4:
        ts = []
    elif t == 5:
        ps = []
    return texref.tex0(unk, ts, ps), unk, ts, ps


def check_model(e, m, names, mdl, unk, ts, ps):
    e.check(len(m.models) == len(names), 'number of models')
    for i, (nm, _) in enumerate(m.models):
        e.check_eq(nm, names[i], f'name of model {i}')
    e.check_eq([m.texUnk08, m.texUnk10, m.texUnk18, m.texUnk20, m.texUnk2C, m.texUnk32], unk, 'unknown values')
    check_tex(e, m.textures, m.palettes, ts, ps)


def check_tex(e, textures, palettes, ts, ps):
    e.check(len(textures) == len(ts), 'number of textures')
    e.check(len(palettes) == len(ps), 'number of palettes')
    for (nm, t), v in zip(textures, ts):
        e.check_eq(nm, v['name'].decode('latin-1'), 'texture name')
        e.check_eq(list(t.save()), [v['u0'], v['u2'], texref.params(v), v['u4'], v['d1'], v['d2']], 'texture')
    for (nm, p), v in zip(palettes, ps):
        e.check_eq(nm, v['name'].decode('latin-1'), 'palette name')
        e.check_eq(list(p.save()), [v['u0'], v['u2'], v['h2'], v['data']], 'palette')


def check_file(e, d, mdl):
    """The model block is kept as it is."""
    n = e.concrete(d[14] | d[15] << 8)
    header(e, d, b'BMD0', n, 2, 'file')
    offs = [e.concrete(u32(d, 0x10 + 4 * i)) for i in range(n)]
    seen, pos = [], 0x10 + 4 * n
    for o in offs:
        e.check(o >= pos, 'blocks do not overlap')
        size = e.concrete(u32(d, o + 4))
        pos = o + size
        e.check(pos <= len(d), 'block lies inside the file')
        if e.concrete(d[o]) == ord('M'):
            e.check_eq(d[o:o + size], mdl, 'model block')
            seen.append('M')
        else:
            e.check_eq(d[o:o + 4], b'TEX0', 'block magic')
            seen.append('T')
    e.check(seen.count('M') == 1 and seen.count('T') <= 1, 'blocks')


def models(e, shape, t, cmds=None):
    cmds = [cmds] if cmds else [[0x40, 0x24, 0x22, 0x20, 0x41], []]
    names = [f'model{i}' for i in range(len(shape))]
    ents = [(names[i].encode('latin-1'), e.int(f'mu{i}', 0, 65535), e.int(f'mv{i}', 0, 65535),
             mdlref.model(e, f'm{i}', *s, cmds)) for i, s in enumerate(shape)]
    mdl = mdlref.mdl0(ents)
    blk, unk, ts, ps = texblock(e, t)
    src = mdlref.nsbmd([mdl] + ([blk] if blk is not None else []))
    m = model.NSBMD(src)
    check_model(e, m, names, mdl, unk, ts, ps)
    d = m.save()
    check_file(e, d, mdl)
    check_model(e, model.NSBMD(d), names, mdl, unk, ts, ps)
    e.check_eq(model.NSBMD(d).save(), d, 'saving again')
    if t > 1:
        e.check_eq(d, src, 'file as loaded')


def names(e, n):
    a, b = e.bytes('a', n), e.bytes('b', 16 - n)
    for x in (a, b):
        if len(x):
            e.assume(x[len(x) - 1] != 0)
    mdl = mdlref.mdl0([(x, 1, 2, mdlref.model(e, f'm{i}', 0, 0, 0, 0, [])) for i, x in enumerate((a, b))])
    m = model.NSBMD(mdlref.nsbmd([mdl]))
    want = [a.decode('latin-1'), b.decode('latin-1')]
    check_model(e, m, want, mdl, [0] * 6, [], [])
    check_model(e, model.NSBMD(m.save()), want, mdl, [0] * 6, [], [])


def order(e):
    mdl = mdlref.mdl0([(b'one', 1, 2, mdlref.model(e, 'm', 1, 1, 1, 1, [[0x40]]))])
    blk, unk, ts, ps = texblock(e, 2)
    gap = e.pick('gap', 0, 3)
    blocks = [blk, mdl] if e.pick('swap', 0, 1) else [mdl, blk]
    m = model.NSBMD(mdlref.nsbmd(blocks, gap))
    check_model(e, m, ['one'], mdl, unk, ts, ps)
    d = m.save()
    check_file(e, d, mdl)
    check_model(e, model.NSBMD(d), ['one'], mdl, unk, ts, ps)


def transfer(e):
    mdl = mdlref.mdl0([(b'one', 1, 2, mdlref.model(e, 'm', 1, 1, 1, 1, [[0x40]]))])
    blk, unk, ts, ps = texblock(e, 3)
    m = model.NSBMD(mdlref.nsbmd([mdl, blk]))
    n = m.exportNSBTX()
    e.check_eq([n.unk08, n.unk10, n.unk18, n.unk20, n.unk2C, n.unk32], unk, 'exported values')
    check_tex(e, n.textures, n.palettes, ts, ps)
    n = tex.NSBTX(n.save())
    m2 = model.NSBMD(mdlref.nsbmd([mdl]))
    m2.importNSBTX(n)
    check_model(e, m2, ['one'], mdl, unk, ts, ps)
    e.check_eq(m2.save(), m.save(), 'file with imported textures')
    check_model(e, model.NSBMD(m2.save()), ['one'], mdl, unk, ts, ps)


def edit(e):
    mdl = mdlref.mdl0([(b'one', 1, 2, mdlref.model(e, 'm', 1, 1, 1, 1, [[0x40]]))])
    blk, unk, ts, ps = texblock(e, 3)
    m = model.NSBMD(mdlref.nsbmd([mdl, blk]))
    k = e.pick('k', 0, 3)
    if k == 0:
        del m.textures[1]
        del ts[1]
    elif k == 1:
        m.palettes.reverse()
        ps.reverse()
    elif k == 2:
        new = e.bytes('new', 64)
        m.textures[2][1].data1 = new
        ts[2]['d1'] = new
    else:
        m.textures.append(('again', m.textures[0][1]))
        ts.append(dict(ts[0], name=b'again'))
    d = m.save()
    check_file(e, d, mdl)
    check_model(e, model.NSBMD(d), ['one'], mdl, unk, ts, ps)
