"""Objects of every kind with free contents, ways to save and load them, and
pictures of all that can be seen of an object."""

import ndspy
import ndspy.bmg as bmg
import ndspy.bnbl as bnbl
import ndspy.bncl as bncl
import ndspy.code as code
import ndspy.color as color
import ndspy.fnt as fnt
import ndspy.graphics2D as g2
import ndspy.model as model
import ndspy.narc as narc
import ndspy.rom as rom
import ndspy.soundArchive as sarc
import ndspy.soundBank as sb
import ndspy.soundSequence as sq
import ndspy.soundSequenceArchive as ssar
import ndspy.soundStream as st
import ndspy.soundWave as sw
import ndspy.soundWaveArchive as swar
import ndspy.texture as tex
from checks import B01, B02, C01, C02, I01, Q02, Q03, S01, T01, W01, W02, X01, X03
from refs import fntref, mdlref, romgen, sdatobj, seqobj, seqref, sdatref

SHAPE = ((), ((),))


def first(x):
    return x[0] if isinstance(x, tuple) else x


def mkfnt(e):
    return fntref.make(fnt, fntref.tree(e, SHAPE, [2, 0, 1], [1, 2, 3]))


def mknarc(e, big=0):
    n = narc.NARC()
    n.files = [e.blob('f0', 0, 70000) if big else e.bytes('f0', 3), e.bytes('f1', 0), e.bytes('f2', 5)]
    n.filenames = mkfnt(e)
    n.endiannessOfBeginning = e.choice('order', ['<', '>'])
    return n


def mkrom(e, cfg='ov23', big=()):
    p = romgen.parts(e, cfg, big)
    return romgen.make(rom, fnt, fntref, p, {'arm9RamAddress': e.int('ram9', 0, 0xFFFFFFFF)}, b'NAME')


def mkcode(e):
    f, s0, _ = C01.mk(e, 'magic', [e.bytes('a', 5), e.bytes('b', 0), e.bytes('c', 8)], 0x02000000, 0x10)
    C01.once(e, s0)
    return f


def mkoverlay(e):
    return C02.mk(e.bytes('data', 6), C02.fields(e, 0))


def mkovtable(e):
    return {i: C02.mk(e.bytes(f'd{i}', 3), dict(C02.fields(e, i), ramSize=i)) for i in (0, 3)}


def mkbmg(e):
    order, enc = e.choice('order', ['<', '>']), e.choice('enc', ['utf-16', 'cp1252'])
    ms = [B01.message(e, f'm{i}', s, enc, order, 4) for i, s in enumerate(['s2 e2 s1', 'null', 's0', 'e0'])]
    b = B01.build(e, enc, order, ms)
    ins, b.labels, b.scripts = B02.content(e, (2, 1, 1))
    b.instructions = ins
    return b


def mktouch(e, kind):
    return T01.mk(kind, [T01.entry(e, kind, i, T01.H[i], T01.V[2 - i])[0] for i in range(3)], e.int('unk', 0, 65535))


def mktexs(e):
    ts = [X01.mktex(e, i, *t, nm=f't{i}') for i, t in enumerate(((5, 8, 8), (2, 8, 8), (7, 8, 8)))]
    ps = [X01.mkpal(e, i, n, nm=f'p{i}') for i, n in enumerate((4, 8, 4))]
    return X01.unknowns(e), [(t['name'], X01.texobj(t)) for t in ts], [(p['name'], X01.palobj(p)) for p in ps]


def mknsbtx(e):
    u, t, p = mktexs(e)
    return tex.NSBTX.fromTexturesAndPalettes(*u, t, p)


def mknsbmd(e):
    mdl = mdlref.mdl0([(b'one', 1, 2, mdlref.model(e, 'm', 1, 1, 1, 1, [[0x40]]))])
    blk, _, _, _ = X03.texblock(e, 3)
    return model.NSBMD(mdlref.nsbmd([mdl, blk]))


def mktiles(e, f):
    return g2.loadImageTiles(e.bytes('px', 64), f)


def mkmap(e, f, n):
    return g2.loadTilemapTiles(e.bytes('map', n), f)


def mkwave(e):
    return W01.obj(e, W01.mk(e, 0, 5))


def mkswar(e):
    return swar.SWAR.fromWaves([W01.obj(e, W01.mk(e, i, 3 + i)) for i in range(2)], e.int('unk', 0, 65535))


def mkstrm(e):
    chans, head, entry = W02.mk(e, 2, 2, 4, 3)
    return W02.build(chans, head, entry, 1, e.bool('looped'), 4, 3)


def mksbnk(e):
    b = sb.SBNK.fromInstruments([I01.build(I01.inst(e, i, k)) for i, k in enumerate(('s', '-', 'r2', 'g2'))],
                                e.int('unk', 0, 65535), [1, None, 3])
    return b


PROGRAM = [('track', 1, 4), ('call', 6), ('note',), ('end',), ('call', 6), ('jump', 4), ('rest',), ('return',)]


def mksseq(e):
    return sq.SSEQ.fromEvents(seqobj.make(Q02.fill(e, PROGRAM)), *Q02.vals(e))


def mkunparsed(e):
    return sq.SSEQ(seqref.sseq(e.bytes('d', 4)), *Q02.vals(e))


def mkssar(e):
    p = Q03.body(e)
    objs = seqobj.make(p)
    return ssar.SSAR.fromEventsAndSequences(objs, [(f'S{i}' if i else None, ssar.SSARSequence(None if s is None else objs[s], *Q03.vals(e, i)))
                                                   for i, s in enumerate([0, 2, None, 4, 6])], e.int('unk', 0, 65535))


def mkssaru(e):
    return ssar.SSAR(seqref.ssar([[0] + Q03.vals(e, 0), [None] + Q03.vals(e, 1)], e.bytes('d', 3)), e.int('unk', 0, 65535), ['a', None])


def mksdat(e):
    return sdatobj.archive(S01.everything(e, 2))


def mkpalette(e):
    return [color.ColorTuple(*(e.int(f'c{i}{k}', 0, 31 if k != 'a' else 1) for k in 'rgba')) for i in range(3)]


# kind: make, save (to bytes), load (from bytes), class or functions with file functions
KINDS = {
    'fnt': (mkfnt, fnt.save, fnt.load, None),
    'narc': (mknarc, lambda o: o.save(), narc.NARC, narc.NARC),
    'rom': (mkrom, lambda o: o.save(), rom.NintendoDSRom, rom.NintendoDSRom),
    'code': (mkcode, lambda o: o.save(), lambda d: code.MainCodeFile(d, 0x02000000), code.MainCodeFile),
    'overlay': (mkoverlay, lambda o: o.save(), None, None),
    'ovtable': (mkovtable, code.saveOverlayTable, None, None),
    'bmg': (mkbmg, lambda o: o.save(), bmg.BMG, bmg.BMG),
    'bncl': (lambda e: mktouch(e, 'bncl'), lambda o: o.save(), bncl.BNCL, bncl.BNCL),
    'bnbl': (lambda e: mktouch(e, 'bnbl'), lambda o: o.save(), bnbl.BNBL, bnbl.BNBL),
    'nsbtx': (mknsbtx, lambda o: o.save(), tex.NSBTX, None),
    'nsbmd': (mknsbmd, lambda o: o.save(), model.NSBMD, None),
    'tiles4': (lambda e: mktiles(e, g2.ImageFormat.I4), g2.saveImageTiles, lambda d: g2.loadImageTiles(d, g2.ImageFormat.I4),
               (g2.loadImageTilesFromFile, g2.saveImageTilesToFile, [g2.ImageFormat.I4])),
    'tiles8': (lambda e: mktiles(e, g2.ImageFormat.I8), g2.saveImageTiles, g2.loadImageTiles,
               (g2.loadImageTilesFromFile, g2.saveImageTilesToFile, [])),
    'map8': (lambda e: mkmap(e, g2.TilemapFormat.I8, 3), g2.saveTilemapTiles, lambda d: g2.loadTilemapTiles(d, g2.TilemapFormat.I8),
             (g2.loadTilemapTilesFromFile, g2.saveTilemapTilesToFile, [g2.TilemapFormat.I8])),
    'map16': (lambda e: mkmap(e, g2.TilemapFormat.I10H1V1P4, 6), g2.saveTilemapTiles, g2.loadTilemapTiles,
              (g2.loadTilemapTilesFromFile, g2.saveTilemapTilesToFile, [])),
    'palette': (mkpalette, color.savePalette, color.loadPalette, (color.loadPaletteFromFile, color.savePaletteToFile, [])),
    'swav': (mkwave, lambda o: o.save(), sw.SWAV, sw.SWAV),
    'swar': (mkswar, lambda o: first(o.save()), swar.SWAR, swar.SWAR),
    'strm': (mkstrm, lambda o: first(o.save()), st.STRM, st.STRM),
    'sbnk': (mksbnk, lambda o: first(o.save()), sb.SBNK, sb.SBNK),
    'sseq': (mksseq, lambda o: first(o.save()), sq.SSEQ, sq.SSEQ),
    'sseq-unparsed': (mkunparsed, lambda o: first(o.save()), sq.SSEQ, sq.SSEQ),
    'ssar': (mkssar, lambda o: first(o.save()), ssar.SSAR, ssar.SSAR),
    'ssar-unparsed': (mkssaru, lambda o: first(o.save()), ssar.SSAR, ssar.SSAR),
    'sdat': (mksdat, lambda o: o.save(), sarc.SDAT, sarc.SDAT),
}


# ------------------------------------------------------------- pictures

PLAIN = (int, str, float, bool)


def picture(x, seen=None):
    """Everything that can be seen of x: public attributes and properties of
    objects, elements of containers."""
    if seen is None:
        seen = []
    if x is None or isinstance(x, PLAIN):
        return x
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    for i, (y, _) in enumerate(seen):
        if y is x:
            return f'seen {i}'
    if not isinstance(x, (list, tuple, set, frozenset, dict)) and not hasattr(x, '__dict__'):
        return repr(x)
    seen.append((x, None))
    if isinstance(x, (list, tuple)):
        return ['list'] + [picture(y, seen) for y in x]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted(x)
    if isinstance(x, dict):
        return ['dict'] + [[k, picture(v, seen)] for k, v in sorted(x.items())]
    out = [type(x).__name__]
    names = [n for n in vars(x) if not n.startswith('_')]
    for c in type(x).__mro__:
        for n, v in vars(c).items():
            if not n.startswith('_') and isinstance(v, property) and n not in names:
                names.append(n)
    for n in sorted(names):
        try:
            v = picture(getattr(x, n), seen)
        except ValueError:
            v = 'not available'
        out.append([n, v])
    return out


def same(e, a, b, what):
    """Compares two pictures."""
    if isinstance(a, list):
        e.check(isinstance(b, list) and len(a) == len(b), what + ': shape')
        for i, (x, y) in enumerate(zip(a, b)):
            w = what
            if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str):
                w = what + '.' + x[0]
            same(e, x, y, w)
        return
    e.check((a is None) == (b is None), what)
    if a is not None:
        e.check_eq(a, b, what)
