"""U01: saving does not change the object being saved."""

import ndspy
import ndspy.code as code
import ndspy.codeCompression as cc
import ndspy.fnt as fnt
import ndspy.lz10 as lz10
import ndspy.rom as rom
import ndspy.soundWave as sw
from checks import W01, W02
from refs import objs, romgen, fntref

ASSUMPTIONS = ['one object of each kind and shape with free contents, as listed under each case; those loaded from a '
               'file likewise']
LOADED = [k for k, v in objs.KINDS.items() if v[2] is not None]


def cases(tier):
    for k in objs.KINDS:
        yield dict(name=k, fn='twice', args={'k': k, 'loaded': False}, bounds=f'a new {k} object with free contents')
        if objs.KINDS[k][2] is not None:
            yield dict(name=k + '-loaded', fn='twice', args={'k': k, 'loaded': True}, bounds=f'a {k} object loaded from a file')
    for k in ('narc', 'rom', 'bmg', 'nsbtx', 'sbnk', 'sseq', 'ssar', 'sdat', 'swar', 'strm'):
        yield dict(name=k + '-shared', fn='shared', args={'k': k}, bounds='two objects loaded from the same bytes, one changed')
    for cfg in romgen.CONFIGS:
        yield dict(name='rom-' + cfg, fn='roms', args={'cfg': cfg}, bounds=f'ROM with {cfg}: {romgen.CONFIGS[cfg]}')
    yield dict(name='capacity', fn='capacity', bounds='ROM saved with updateDeviceCapacity')
    yield dict(name='times', fn='times', bounds='waves and streams saved with their time updated')
    yield dict(name='compressed', fn='compressed', bounds='main code file and overlay saved compressed')
    yield dict(name='inputs', fn='inputs', bounds='compressing and decompressing 6 free bytes in a bytearray')
    yield dict(name='sdat-parsed', fn='parsed', bounds='parsed sequences inside a sound archive')
    yield dict(name='fresh', fn='fresh', bounds='two objects of each class made with default arguments, one changed')
    yield dict(name='parts', fn='parts', bounds='saving of parts: players, group entries, notes, instruments')


def norm(r):
    return objs.picture(r)


def visible(k, pic):
    # saving an overlay updates these, as documented
    return [x for x in pic if k != 'overlay' or x[0] not in ('compressedSize', 'flags', 'ramSize', 'compressed')]


def twice(e, k, loaded):
    make, save, load, _ = objs.KINDS[k]
    o = make(e)
    if loaded:
        o = load(bytes(save(o)))
        if hasattr(o, 'parse') and 'unparsed' not in k:
            o.parse()
    before = objs.picture(o)
    full = o.save if hasattr(o, 'save') and not isinstance(o, (list, dict)) else (lambda: save(o))
    if k == 'fnt':
        full = lambda: fnt.save(o)
    a = norm(full())
    after = objs.picture(o)
    objs.same(e, visible(k, before), visible(k, after), k + ' after saving')
    b = norm(full())
    objs.same(e, a, b, 'saved a second time')
    objs.same(e, after, objs.picture(o), k + ' after saving twice')


def shared(e, k):
    """Objects do not share state with others loaded from the same bytes."""
    make, save, load, _ = objs.KINDS[k]
    d = bytes(save(make(e)))
    a, b = load(d), load(d)
    for x in (a, b):
        if hasattr(x, 'parse'):
            x.parse()
    before = objs.picture(b)
    for n, v in list(vars(a).items()):
        if isinstance(v, list):
            v.append(None)
            if len(v) > 1:
                del v[0]
        elif isinstance(v, int):
            setattr(a, n, v + 1)
    objs.same(e, before, objs.picture(b), k + ' after the other was changed')


def change(x, by, seen):
    if any(x is y for y in seen):
        return
    seen.append(x)
    if isinstance(x, list):
        for y in x:
            change(y, by, seen)
        x.append(by)
    elif isinstance(x, dict):
        x[9] = by
    elif isinstance(x, set):
        x.add(by)
    elif isinstance(x, bytearray):
        x.append(7)
    elif hasattr(x, '__dict__'):
        for n, v in list(vars(x).items()):
            if isinstance(v, int) and not isinstance(v, bool):
                setattr(x, n, by)
            else:
                change(v, by, seen)


def fresh(e):
    by = e.int('by', 1000, 65535)
    for c in (objs.narc.NARC, objs.bmg.BMG, objs.bmg.Message, objs.bncl.BNCL, objs.bnbl.BNBL, fnt.Folder, rom.NintendoDSRom,
              objs.tex.NSBTX, objs.sw.SWAV, objs.swar.SWAR, objs.st.STRM, objs.sb.SBNK, objs.sq.SSEQ, objs.ssar.SSAR,
              objs.sarc.SDAT):
        a, b = c(), c()
        before = objs.picture(b)
        change(a, by, [])
        objs.same(e, before, objs.picture(b), c.__name__ + ' after another was changed')
        objs.same(e, before, objs.picture(c()), c.__name__ + ' made after another was changed')


def roms(e, cfg):
    r = objs.mkrom(e, cfg)
    before = objs.picture(r)
    a = r.save()
    objs.same(e, before, objs.picture(r), 'ROM after saving')
    e.check_eq(r.save(), a, 'saved a second time')
    m = rom.NintendoDSRom(a)
    before = objs.picture(m)
    b = m.save()
    objs.same(e, before, objs.picture(m), 'loaded ROM after saving')
    e.check_eq(m.save(), b, 'loaded, saved a second time')


def capacity(e):
    r = objs.mkrom(e, 'files')
    before = objs.picture(r)
    a = r.save(updateDeviceCapacity=True)
    after = objs.picture(r)
    objs.same(e, [x for x in before if x[0] != 'deviceCapacity'], [x for x in after if x[0] != 'deviceCapacity'], 'ROM after saving')
    e.check_eq(r.save(updateDeviceCapacity=True), a, 'saved a second time')
    objs.same(e, after, objs.picture(r), 'ROM after saving twice')


def times(e):
    w = W01.obj(e, [1, e.bool('loop'), e.choice('rate', [8000, 32768]), 1, 0, 4, e.bytes('d', 8)])
    before = objs.picture(w)
    a = w.save(updateTime=True, updateTotalLength=True)
    after = objs.picture(w)
    changed = ('time', 'totalLength')
    objs.same(e, [x for x in before if x[0] not in changed], [x for x in after if x[0] not in changed], 'wave after saving')
    e.check_eq(w.save(updateTime=True, updateTotalLength=True), a, 'wave saved a second time')
    chans, head, entry = W02.mk(e, 1, 2, 4, 4)
    head[1] = 8000
    s = W02.build(chans, head, entry, 1, True, 2, 2)
    before = objs.picture(s)
    a = s.save(updateTime=True)
    after = objs.picture(s)
    objs.same(e, [x for x in before if x[0] != 'time'], [x for x in after if x[0] != 'time'], 'stream after saving')
    objs.same(e, norm(s.save(updateTime=True)), norm(a), 'stream saved a second time')


def compressed(e):
    o = code.Overlay(bytes(range(40)) * 4 + bytes([e.int('x', 0, 1)]), 1, 2, 3, 4, 5, 6, 0, 0)
    data = bytes(o.data)
    a = o.save(compress=True)
    after = objs.picture(o)
    e.check_eq(o.data, data, 'data of the overlay')
    e.check_eq(o.save(compress=True), a, 'overlay saved a second time')
    objs.same(e, after, objs.picture(o), 'overlay after saving twice')
    s0 = bytes(range(256)) * 0x41
    f = code.MainCodeFile.fromSections([code.MainCodeFile.Section(s0, 0x02000000, 0, implicit=True)], 0x02000000)
    f.codeSettingsOffs = None
    before = objs.picture(f)
    a = f.save(compress=True)
    objs.same(e, before, objs.picture(f), 'code after saving')
    e.check_eq(f.save(compress=True), a, 'code saved a second time')


def inputs(e):
    d = e.bytes('d', 6)
    b = bytearray(d)
    c = lz10.compress(b)
    e.check_eq(bytes(b), d, 'lz10.compress leaves its input alone')
    b2 = bytearray(c)
    lz10.decompress(b2)
    e.check_eq(bytes(b2), bytes(c), 'lz10.decompress leaves its input alone')
    cc.compress(b)
    e.check_eq(bytes(b), d, 'codeCompression.compress leaves its input alone')


def parsed(e):
    s = objs.mksdat(e)
    s.sequences.append(('parsed', objs.mksseq(e)))
    s.sequenceArchives.append(('parsed', objs.mkssar(e)))
    before = objs.picture(s)
    a = bytes(s.save())
    objs.same(e, before, objs.picture(s), 'sound archive after saving')
    e.check_eq(bytes(s.save()), a, 'saved a second time')


def parts(e):
    import ndspy.soundGroup as sg
    import ndspy.soundSequencePlayer as sp
    import ndspy.soundStreamPlayer as stp
    g = sg.GroupEntry(e.pick('t', 0, 3), e.int('o', 0, 15), e.int('id', 0, 0xFFFFFFFF))
    p = sp.SequencePlayer(e.int('max', 0, 65535), {1, 5}, e.int('heap', 0, 0xFFFFFFFF))
    s = stp.StreamPlayer([e.int('c', 0, 15), 2])
    b = objs.mksbnk(e)
    for o in [g, p, s] + [i for i in b.instruments if i is not None]:
        before = objs.picture(o)
        a = objs.picture(o.save())
        objs.same(e, before, objs.picture(o), type(o).__name__ + ' after saving')
        objs.same(e, a, objs.picture(o.save()), type(o).__name__ + ' saved a second time')
    ch = s.save()
    ch.append(77)
    e.check(len(s.channels) == 2, 'changing the list of channels that saving returned')
