"""S03: sharing of identical files in a sound archive is safe."""

import ndspy.soundArchive as sarc
from checks import S01
from refs import sdatref, sdatobj

ASSUMPTIONS = ['up to 3 entries per kind, files with up to 2 free bytes', 'merge identifiers 0 to 2']
KINDS = ['seq', 'ssar', 'bank', 'swar', 'strm']


def cases(tier):
    q = tier == 'quick'
    for k in KINDS:
        for n in (2, 3) if q else (2, 3, 4):
            yield dict(name=f'{k}-{n}', fn='merge', args={'k': k, 'n': n}, max_paths=20000,
                       bounds=f'{n} entries of {k}, each byte equal or different, merge identifiers 0 to 2')
        yield dict(name=f'{k}-shared', fn='shared', args={'k': k}, bounds=f'archive whose {k} entries share files')
        yield dict(name=f'{k}-edited', fn='edited', args={'k': k}, bounds=f'one of two {k} entries sharing a file changed')
        yield dict(name=f'{k}-own', fn='own', args={'k': k}, bounds=f'{k} entries with equal but separate files')
    yield dict(name='lengths', fn='lengths', bounds='files where one is the beginning of another')
    yield dict(name='kinds', fn='kinds', bounds='entries of different kinds')
    yield dict(name='same', fn='same', bounds='the same object in several places')
    yield dict(name='order', fn='order', bounds='an entry that could be merged with several earlier files')


def files(a, d, e):
    return sdatref.read(e, d)


def merge(e, k, n):
    a = sdatobj.blank()
    ids = []
    for i in range(n):
        v = sdatobj.entry(e, k, i * 3 + 1, 1)
        a[k].append((f'E{i}', v))
    s = sdatobj.archive(a)
    objs = [o for _, o in getattr(s, sdatobj.ATTR[k])]
    for i, o in enumerate(objs):
        ids.append(e.int(f'id{i}', 0, 2))
        o.dataMergeOptimizationID = ids[i]
    d = bytes(s.save())
    got, fs = sdatref.read(e, d)
    nums = [v[-1] for _, v in got[k]]
    for i in range(n):
        e.check_eq(fs[nums[i]], a[k][i][1][-1], 'file of the entry')
        for j in range(i):
            same = e.all([e.eq(a[k][i][1][-1], a[k][j][1][-1]), ids[i] == ids[j]])
            if nums[i] == nums[j]:
                e.check(same, 'only merged when identical and allowed')
            else:
                e.check(same == False, 'identical entries are merged')
    t = sarc.SDAT(d)
    sdatobj.same(e, t, a)


def shared(e, k):
    """Entries that share a file in the archive keep doing so and keep their
    own parameters."""
    a = sdatobj.blank()
    f = [sdatobj.filedata(e, k, i * 3 + 1, 1) for i in range(2)]
    use = [e.pick(f'use{i}', 0, 1) for i in range(3)]
    for i in range(3):
        v = sdatobj.entry(e, k, i * 3 + 4, 1)
        v[-1] = use[i]
        a[k].append((f'E{i}', v))
    d = sdatref.build(sdatobj.asread(a), f)
    t = sarc.SDAT(d)
    for _, v in a[k]:
        v[-1] = f[v[-1]]
    sdatobj.same(e, t, a)
    d2 = bytes(t.save())
    got, fs = sdatref.read(e, d2, al=t.fileAlignment, first=t.firstFileAlignment, padded=t.fatLengthsIncludePadding, end=t.padAtEnd)
    nums = [v[-1] for _, v in got[k]]
    for i in range(3):
        for j in range(i):
            e.check((nums[i] == nums[j]) == (use[i] == use[j]), 'shared as before')
    sdatobj.same(e, sarc.SDAT(d2), a, 'after saving')


def change(e, k, o):
    """Changes the contents of an object."""
    if k == 'seq':
        o.eventsData = o.eventsData + b'\x01'
    elif k == 'ssar':
        o.eventsData = o.eventsData + b'\x01'
    elif k == 'bank':
        o.instruments.append(None)
    elif k == 'swar':
        del o.waves[0]
    else:
        o.unk03 = 7


def edited(e, k):
    a = sdatobj.blank()
    f = sdatobj.filedata(e, k, 1, 1)
    for i in range(2):
        v = sdatobj.entry(e, k, i * 3 + 4, 1)
        v[-1] = 0
        a[k].append((f'E{i}', v))
    t = sarc.SDAT(sdatref.build(sdatobj.asread(a), [f]))
    for _, v in a[k]:
        v[-1] = f
    objs = [o for _, o in getattr(t, sdatobj.ATTR[k])]
    which = e.pick('which', 0, 1)
    change(e, k, objs[which])
    a[k][which] = (a[k][which][0], sdatobj.contents(k, objs[which]))
    e.check((bytes(a[k][which][1][-1]) == bytes(f)) == False, 'the contents differ now')
    sdatobj.same(e, t, a, 'before saving')
    sdatobj.same(e, sarc.SDAT(bytes(t.save())), a, 'after saving')


def own(e, k):
    """Equal files that are separate in the archive stay separate."""
    a = sdatobj.blank()
    f = sdatobj.filedata(e, k, 1, 1)
    for i in range(3):
        v = sdatobj.entry(e, k, i * 3 + 4, 1)
        v[-1] = i
        a[k].append((f'E{i}', v))
    t = sarc.SDAT(sdatref.build(sdatobj.asread(a), [f, f, f]))
    for _, v in a[k]:
        v[-1] = f
    d = bytes(t.save())
    got, fs = sdatref.read(e, d, al=t.fileAlignment, first=t.firstFileAlignment, padded=t.fatLengthsIncludePadding, end=t.padAtEnd)
    e.check(len(fs) == 3, 'three files')
    sdatobj.same(e, sarc.SDAT(d), a)


def lengths(e):
    a = sdatobj.blank()
    x = e.bytes('x', 3)
    n, m = e.pick('n', 0, 3), e.pick('m', 0, 3)
    for i, l in enumerate((n, m)):
        v = sdatobj.entry(e, 'seq', i, 1)
        from refs import seqref
        v[6] = seqref.sseq(x[:l])
        a['seq'].append((None, v))
    s = sdatobj.archive(a)
    got, fs = sdatref.read(e, bytes(s.save()))
    e.check(len(fs) == (1 if n == m else 2), 'number of files')
    sdatobj.same(e, sarc.SDAT(bytes(s.save())), a)


def kinds(e):
    a = S01.everything(e, 1)
    s = sdatobj.archive(a)
    got, fs = sdatref.read(e, bytes(s.save()))
    e.check(len(fs) == 5, 'a file for every kind')


def same(e):
    a = sdatobj.blank()
    for i in range(2):
        a['seq'].append((f'E{i}', sdatobj.entry(e, 'seq', i, 1)))
    s = sdatobj.archive(a)
    use = [e.pick(f'use{i}', 0, 1) for i in range(3)]
    objs = [o for _, o in s.sequences]
    s.sequences = [(f'U{i}', objs[u]) for i, u in enumerate(use)]
    b = sdatobj.blank()
    b['seq'] = [(f'U{i}', a['seq'][u][1]) for i, u in enumerate(use)]
    sdatobj.same(e, sarc.SDAT(bytes(s.save())), b)


def order(e):
    """Three equal files with identifiers of all kinds, then a fourth."""
    a = sdatobj.blank()
    f = sdatobj.filedata(e, 'swar', 0, 1)
    for i in range(4):
        v = sdatobj.entry(e, 'swar', i, 1)
        v[1] = f
        a['swar'].append((None, v))
    s = sdatobj.archive(a)
    ids = [e.pick(f'id{i}', 0, 3) for i in range(4)]
    for k, (_, o) in zip(ids, s.waveArchives):
        o.dataMergeOptimizationID = k
    d = bytes(s.save())
    got, fs = sdatref.read(e, d)
    nums = [v[-1] for _, v in got['swar']]
    e.check(len(fs) == len(set(ids)), 'a file for every identifier')
    for i in range(4):
        for j in range(i):
            e.check((nums[i] == nums[j]) == (ids[i] == ids[j]), 'merged or not')
    sdatobj.same(e, sarc.SDAT(d), a)
