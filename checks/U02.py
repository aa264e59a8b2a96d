"""U02: the file functions do the same as the in-memory functions."""

import pathlib

import ndspy.code as code
import ndspy.codeCompression as cc
import ndspy.color as color
import ndspy.lz10 as lz10
import ndspy.narc as narc
import ndspy.soundWave as sw
import ndspy.soundWaveArchive as swar
from checks import W01, W02
from refs import lz, objs

ASSUMPTIONS = ['one object of each kind and shape with free contents, as listed under U01; files up to 70000 bytes of '
               'opaque contents where the format allows it; files are those of an ordinary file system, which '
               'neither fails nor runs full']
FILES = [k for k, v in objs.KINDS.items() if v[3] is not None]


def cases(tier):
    for k in FILES:
        for old in ('none', 'longer', 'any'):
            yield dict(name=f'save-{k}-{old}', fn='save', args={'k': k, 'old': old},
                       bounds=f'{k} object with free contents; file there before: {old}')
        yield dict(name=f'load-{k}', fn='load', args={'k': k}, bounds=f'file of a {k} object with free contents')
    yield dict(name='options-rom', fn='optrom', bounds='updateDeviceCapacity on and off')
    yield dict(name='options-swav', fn='optswav', bounds='updateTime and updateTotalLength on and off')
    yield dict(name='options-strm', fn='optstrm', bounds='updateTime on and off')
    yield dict(name='options-code', fn='optcode', bounds='compressed main code file')
    yield dict(name='big-narc', fn='bignarc', bounds='archive with a file of 0..70000 opaque bytes')
    yield dict(name='big-palette', fn='bigpal', bounds='palette file of 0..64 free bytes, files with an odd length included')
    for m in ('lz10', 'cc'):
        for kind, n, k in [('any', 0, 0), ('any', 1, 0), ('any', 5, 0), ('periodic', 40, 2), ('ppqp', 12, 4)]:
            yield dict(name=f'{m}-{kind}-{n}', fn='comp', args={'m': m, 'kind': kind, 'n': n, 'k': k},
                       bounds=lz.DESCR[kind].format(n=n, k=k))
        for cmd in ('compress', 'c'):
            for out in (0, 1, 2):
                yield dict(name=f'{m}-main-{cmd}-{out}', fn='cli', args={'m': m, 'cmd': cmd, 'out': out},
                           bounds='command line: file of 5 free bytes')
    for i in range(len(failing())):
        yield dict(name=f'failed-{i}', fn='failed', args={'i': i}, bounds='saving an object that cannot be saved')


def old(e, p, kind, n):
    """What is at the path before."""
    if kind == 'longer':
        e.writefile(p, e.bytes('old', 8) + bytes(n))
    elif kind == 'any':
        e.writefile(p, e.blob('old', 0, 70000))


def where(e, name):
    p = e.path(name)
    return p, e.choice('pathlike', [p, pathlib.Path(p)])


def save(e, k, old):
    make, sv, ld, fns = objs.KINDS[k]
    o = make(e)
    d = bytes(sv(o))
    p, q = where(e, 'file.bin')
    globals()['old'](e, p, old, len(d))
    if isinstance(fns, tuple):
        r = fns[1](o, q)
    else:
        r = o.saveToFile(q)
    e.check(r is None, 'nothing is returned')
    e.check_eq(e.readfile(p), d, 'contents of the file')
    e.check_eq(bytes(sv(o)), d, 'object afterwards')


def load(e, k):
    make, sv, ld, fns = objs.KINDS[k]
    o = make(e)
    full = sv(o) if isinstance(fns, tuple) else o.save()
    d, rest = (full[0], list(full[1:])) if isinstance(full, tuple) else (full, [])
    d = bytes(d)
    p, q = where(e, 'file.bin')
    e.writefile(p, d)
    if isinstance(fns, tuple):
        objs.same(e, objs.picture(ld(d)), objs.picture(fns[0](q, *fns[2])), 'loaded from the file')
    elif k == 'code':
        objs.same(e, objs.picture(ld(d)), objs.picture(fns.fromFile(q, 0x02000000)), 'loaded from the file')
    else:
        for n in sorted({0, 1, len(rest)}):
            args = rest[:n]
            objs.same(e, objs.picture(fns(d, *args)), objs.picture(fns.fromFile(q, *args)), 'loaded from the file')
    e.check_eq(e.readfile(p), d, 'the file afterwards')


def both(e, make, what, save=None, **kw):
    """Saving to a file with options is the same as saving with them."""
    save = save or (lambda o: o.save(**kw))
    a, b = make(), make()
    p = e.path(f'file{what}')
    e.writefile(p, e.bytes('old' + what, 3))
    r = save(a)
    a.saveToFile(p, **kw)
    e.check_eq(e.readfile(p), bytes(objs.first(r)), 'contents of the file ' + what)
    b.saveToFile(p, **kw)
    e.check_eq(e.readfile(p), bytes(objs.first(r)), 'contents of the file ' + what)
    objs.same(e, objs.picture(a), objs.picture(b), 'object ' + what)


def optrom(e):
    parts = objs.romgen.parts(e, 'files', ())

    def make():
        r = objs.romgen.make(objs.rom, objs.fnt, objs.fntref, parts, {'deviceCapacity': 3}, b'NAME')
        return r
    both(e, make, 'a')
    both(e, make, 'b', updateDeviceCapacity=True)
    both(e, make, 'c', updateDeviceCapacity=False)


def optswav(e):
    v = [1, e.bool('loop'), e.choice('rate', [8000, 32768]), e.int('time', 0, 65535), 0, e.int('total', 0, 0xFFFFFFFF), e.bytes('d', 8)]
    make = lambda: W01.obj(e, v)
    for i, kw in enumerate([{}, {'updateTime': True}, {'updateTotalLength': True}, {'updateTime': True, 'updateTotalLength': True}]):
        both(e, make, str(i), **kw)


def optstrm(e):
    chans, head, entry = W02.mk(e, 1, 2, 4, 4)
    head[1] = 8000
    make = lambda: W02.build(chans, head, entry, 1, True, 2, 2)
    for i, kw in enumerate([{}, {'updateTime': True}, {'updateTime': False}]):
        both(e, make, str(i), **kw)


def optcode(e):
    # the free bytes are in the part that is not compressed
    s0 = bytes(range(256)) + e.bytes('s', 16) + bytes(range(240)) + bytes(range(256)) * 0x3F
    d = b'abcabcabc'

    def make():
        f = code.MainCodeFile.fromSections([code.MainCodeFile.Section(s0, 0x02000000, 0, implicit=True),
                                            code.MainCodeFile.Section(d, 0x02001000, 0)], 0x02000000)
        f.codeSettingsOffs = 0x10
        return f
    both(e, make, 'a', compress=False)
    both(e, make, 'b', compress=True)


def bignarc(e):
    n = objs.mknarc(e, 1)
    d = n.save()
    p = e.path('big')
    n.saveToFile(p)
    e.check_eq(e.readfile(p), d, 'contents of the file')
    m = narc.NARC.fromFile(p)
    for i in range(3):
        e.check_eq(m.files[i], n.files[i], 'files')


def bigpal(e):
    d = e.bytes('d', e.pick('n', 0, 64))
    p = e.path('pal')
    e.writefile(p, d)
    a = e.raises(Exception, color.loadPalette, d)
    x = e.result
    b = e.raises(Exception, color.loadPaletteFromFile, p)
    y = e.result
    e.check(type(a) is type(b), 'both or neither accept the file')
    if a is None:
        objs.same(e, objs.picture(x), objs.picture(y), 'colours')


MODS = {'lz10': lz10, 'cc': cc}


def comp(e, m, kind, n, k):
    mod = MODS[m]
    d = lz.family(e, kind, n, k)
    p, q = where(e, 'in')
    o = e.path('out')
    e.writefile(p, d)
    for i, args in enumerate([[]] if m == 'lz10' else [[], [True], [False]]):
        c = mod.compress(d, *args)
        e.check_eq(bytes(mod.compressFromFile(q, *args)), bytes(c), 'compressed from a file')
        e.writefile(o, e.blob(f'old{i}', 0, 1000))
        e.check(mod.compressToFile(d, o, *args) is None, 'nothing is returned')
        e.check_eq(e.readfile(o), bytes(c), 'compressed to a file')
        # (some short results happen to look like other compressed data)
        bad = e.raises(Exception, mod.decompress, bytes(c))
        u = e.result
        if bad is not None:
            e.check(type(e.raises(Exception, mod.decompressFromFile, o)) is type(bad), 'decompressed from a file')
            continue
        e.check_eq(bytes(mod.decompressFromFile(o)), bytes(u), 'decompressed from a file')
        e.writefile(o, e.blob(f'older{i}', 0, 1000))
        e.check(mod.decompressToFile(bytes(c), o) is None, 'nothing is returned')
        e.check_eq(e.readfile(o), bytes(u), 'decompressed to a file')
    e.check_eq(e.readfile(p), d, 'the file afterwards')


def cli(e, m, cmd, out):
    mod = MODS[m]
    d = e.bytes('d', 5)
    p = e.path('in.bin')
    e.writefile(p, d)
    # where the result goes: next to the input, or a new or an old file
    o = [e.path('in.cmp'), e.path('out.x'), e.path('out.y')][out]
    if out == 2:
        e.writefile(o, e.blob('old', 0, 1000))
    extra = [o] if out else []
    flags = [[]] if m == 'lz10' else [[], ['--is_arm9']]
    for f in flags:
        mod.main([cmd, p] + extra + f)
        c = bytes(mod.compress(d, *([True] if f else [])))
        e.check_eq(e.readfile(o), c, 'compressed on the command line')
        e.check_eq(e.readfile(p), d, 'the input afterwards')
    o2 = e.path('in.dec') if out == 0 else e.path('back')
    if out == 2:
        e.writefile(o2, e.blob('old2', 0, 1000))
    mod.main([{'compress': 'decompress', 'c': 'd'}[cmd], o] + ([o2] if out else []))
    e.check_eq(e.readfile(o2 if out else e.path('in.dec')), bytes(mod.decompress(c)), 'decompressed on the command line')


def failing():
    """Objects that cannot be saved."""
    bmg = objs.bmg.BMG()
    bmg.messages = [7]
    n = narc.NARC()
    n.files = [5]
    b = objs.bncl.BNCL()
    b.unk04 = 'x'
    bb = objs.bnbl.BNBL()
    bb.unk04 = 'x'
    w = sw.SWAV()
    w.sampleRate = 'x'
    a = swar.SWAR()
    a.waves = [5]
    k = objs.sb.SBNK()
    k.instruments = [5]
    r = objs.rom.NintendoDSRom()
    r.files = [7]
    s = objs.sarc.SDAT()
    s.sequences = [7]
    return [bmg, n, b, bb, w, a, k, r, s]


def failed(e, i):
    o = failing()[i]
    p = e.path('file')
    d = e.bytes('d', 3)
    e.writefile(p, d)
    if e.raises(Exception, o.saveToFile, p) is None:
        e.skip()
    e.check_eq(e.readfile(p), d, 'a save that fails leaves the file as it was')
