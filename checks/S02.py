"""S02: saved sound archives are well-formed."""

import ndspy.soundArchive as sarc
from checks import S01
from refs import sdatref, sdatobj, seqref
from refs.bin import u32

ASSUMPTIONS = S01.ASSUMPTIONS + ['padded file lengths are only asked for together with padding at the end']


def cases(tier):
    q = tier == 'quick'
    for part in sdatref.PARTS:
        for n in (1, 2) if q else (1, 2, 3):
            yield dict(name=f'{part}-{n}', fn='part', args={'part': part, 'n': n}, max_paths=5000,
                       bounds=f'{n} entries of {part}, every mix of empty, named and unnamed')
    for i, o in enumerate(S01.OPTS):
        for n in (1, 2):
            yield dict(name=f'options-{i}-{n}', fn='options', args={'o': o, 'n': n}, bounds=f'{n} entries of everything, layout {o}')
        yield dict(name=f'resaved-{i}', fn='resaved', args={'o': o}, bounds=f'foreign archive with layout {o}, saved')
    yield dict(name='sizes', fn='sizes', bounds='files of every size modulo the alignment')
    yield dict(name='single', fn='single', bounds='a single file of every size modulo 32, every layout, saved, loaded and saved again')
    for al in (1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200):
        yield dict(name=f'again-{al:x}', fn='again', args={'al': al}, max_paths=5000,
                   bounds=f'three files of sizes of every remainder modulo 4, alignment {al}, every other option, saved twice')
    yield dict(name='large', fn='large', bounds='files of more than 64 KiB in front of and behind others')
    yield dict(name='noname', fn='noname', bounds='no names at all')
    yield dict(name='empty', fn='empty', bounds='an empty archive, every layout')
    yield dict(name='names', fn='names', bounds='names of every length modulo 4')


def verify(e, a, d, o):
    want = sdatobj.asread(a)
    got, files = sdatref.read(e, d, **o)
    symb = any(n is not None or p == 'ssar' and v is not None and any(x is not None for x in v[1])
               for p in want for n, v in want[p])
    sdatobj.resolve(e, got, files, want, symb, o.get('padded', False))
    e.check((sum(d[0x10:0x14]) > 0) == symb, 'symbol block if and only if there are names')
    if not o.get('padded'):
        return
    for f in files:
        e.check(len(f) % o.get('al', 0x20) == 0, 'padded lengths')


def part(e, part, n):
    a = sdatobj.blank()
    for i in range(n):
        kind = e.pick(f'kind{i}', 0, 3)
        a[part].append((S01.name(e, f'name{i}', 1 + i) if kind & 1 else None,
                        sdatobj.entry(e, part, i, 1 + i) if kind & 2 else None))
    verify(e, a, bytes(sdatobj.archive(a).save()), {})


def options(e, o, n):
    a = S01.everything(e, n)
    s = sdatobj.archive(a)
    S01.setopts(s, o)
    verify(e, a, bytes(s.save()), o)


def layout(s):
    """The options an archive will be saved with."""
    return dict(al=s.fileAlignment, first=s.firstFileAlignment, padded=s.fatLengthsIncludePadding, end=s.padAtEnd,
                padsymb=s.padSymbSizeTo4InSDATHeader)


def resaved(e, o):
    a = S01.everything(e, 2)
    b, files = S01.numbered(sdatobj.asread(a))
    d = sdatref.build(b, files, **o)
    t = sarc.SDAT(d)
    l = layout(t)
    e.check(l['al'] <= o.get('al', 0x20), 'alignment')
    if o.get('al') != 1:
        e.check(l['padded'] == o.get('padded', False), 'padded lengths or not')
    verify(e, a, bytes(t.save()), l)


def sizes(e):
    al = e.choice('al', [1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200])
    k = e.pick('k', 0, 7)
    a = sdatobj.blank()
    for i, n in enumerate((k, 7 - k, 3)):
        a['seq'].append((f'N{i}', sdatobj.entry(e, 'seq', i, n)))
    a['strm'].append((None, sdatobj.entry(e, 'strm', 0, 1)))
    o = dict(al=al, padded=e.choice('padded', [False, True]), first=e.choice('first', [None, 0x80]))
    s = sdatobj.archive(a)
    S01.setopts(s, o)
    verify(e, a, bytes(s.save()), o)


def single(e):
    n = e.pick('n', 0, 31)
    o = e.choice('o', [dict(), dict(end=False), dict(al=4), dict(al=4, end=False), dict(padded=True)])
    a = sdatobj.blank()
    a['seq'].append(('S', sdatobj.entry(e, 'seq', 0, n)))
    s = sdatobj.archive(a)
    S01.setopts(s, o)
    d = bytes(s.save())
    verify(e, a, d, o)
    t = sarc.SDAT(d)
    l = layout(t)
    d2 = bytes(t.save())
    verify(e, a, d2, l)
    e.check_eq(sarc.SDAT(d2).sequences[0][1].eventsData, t.sequences[0][1].eventsData, 'contents')


def again(e, al):
    """Where the file shows how it was laid out, it is laid out like that
    again."""
    k = e.pick('k', 0, 3)
    first = e.choice('first', [None, 0x40, 0x200])
    padded, end, padsymb = e.choice('how', [(False, True, False), (False, False, False), (True, True, False), (False, True, True)])
    a = sdatobj.blank()
    for i, n in enumerate((k, 5 * al + 1, 2 * k + 1)):
        a['seq'].append((S01.name(e, f'n{i}', 1 + (k + i) % 4), sdatobj.entry(e, 'seq', i, min(n, 0x401))))
    s = sdatobj.archive(a)
    o = dict(al=al, first=first, padded=padded, end=end, padsymb=padsymb)
    S01.setopts(s, o)
    d = bytes(s.save())
    verify(e, a, d, o)
    fat = e.concrete(u32(d, 0x20)) + 12
    at = [e.concrete(u32(d, fat + 16 * i)) for i in range(3)]
    if al < 0x200 and all(x % (2 * al) == 0 for x in at):
        e.skip()
    t = sarc.SDAT(d)
    e.check(t.fileAlignment == al, 'alignment found when loading')
    e.check_eq(bytes(t.save()), d, 'saved again')


def large(e):
    a = sdatobj.blank()
    for i, n in enumerate((3, 0x10000 + e.pick('n', 0, 3), 0x12340, 2)):
        v = sdatobj.entry(e, 'seq', i, min(n, 3))
        v[6] = seqref.sseq(e.bytes(f'data{i}', 2) + bytes(n) + b'\xff')
        a['seq'].append((f'N{i}', v))
    s = sdatobj.archive(a)
    d = bytes(s.save())
    verify(e, a, d, {})
    sdatobj.same(e, sarc.SDAT(d), a)


def noname(e):
    a = S01.everything(e, 1, named=False)
    a['ssar'] = [(None, [e.int('u', 0, 65535), [None], sdatobj.filedata(e, 'ssar', 4)]), (None, None)]
    s = sdatobj.archive(a)
    d = bytes(s.save())
    e.check(d[0x10:0x18] == bytes(8), 'no symbol block')
    verify(e, a, d, {})


def empty(e):
    a = sdatobj.blank()
    s = sdatobj.archive(a)
    o = S01.OPTS[e.pick('o', 0, len(S01.OPTS) - 1)]
    S01.setopts(s, o)
    d = bytes(s.save())
    verify(e, a, d, o)
    t = sarc.SDAT(d)
    verify(e, a, bytes(t.save()), layout(t))


def names(e):
    a = sdatobj.blank()
    part, other = e.choice('parts', [('seq', 'strm'), ('ssar', 'group'), ('player', 'ssar'), ('swar', 'bank')])
    n, m = e.pick('n', 0, 4), e.pick('m', 0, 3)
    a[part].append((S01.name(e, 'name', n), sdatobj.entry(e, part, 1)))
    a[other].append((S01.name(e, 'more', m), sdatobj.entry(e, other, 1)))
    o = dict(padsymb=e.choice('padsymb', [False, True]))
    s = sdatobj.archive(a)
    S01.setopts(s, o)
    verify(e, a, bytes(s.save()), o)
