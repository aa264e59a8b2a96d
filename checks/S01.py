"""S01: sound archives survive saving and loading."""

import ndspy.soundArchive as sarc
from refs import sdatref, sdatobj

ASSUMPTIONS = ['names are Latin-1 without NUL', 'files inside are small (their own formats are the subject of Q02, Q03, '
               'I01, W01 and W02)', 'wave archive links 0-32767; channel sets from a list; group options below 16']
OPTS = [dict(), dict(al=4), dict(al=0x200), dict(al=1), dict(first=0x200), dict(al=4, first=0x20), dict(padded=True),
        dict(end=False), dict(padsymb=True), dict(al=0x10, padded=True, first=0x40)]


def cases(tier):
    q = tier == 'quick'
    for part in sdatref.PARTS:
        for n in (1, 2) if q else (1, 2, 3):
            yield dict(name=f'{part}-{n}', fn='part', args={'part': part, 'n': n}, max_paths=5000,
                       bounds=f'{n} entries of {part}, every mix of empty, named and unnamed')
        yield dict(name=f'{part}-foreign', fn='foreignpart', args={'part': part}, bounds=f'files with {part} entries in another layout')
    for i, o in enumerate(OPTS):
        yield dict(name=f'options-{i}', fn='options', args={'o': o}, bounds=f'one entry of everything, layout {o}')
        for symb in (True, False):
            yield dict(name=f'foreign-{i}{"" if symb else "-nosymb"}', fn='foreign', args={'o': o, 'symb': symb},
                       bounds=f'foreign archive with layout {o}')
    for k in ('short', 'reverse', 'gap', 'shareSymbols'):
        yield dict(name=f'layout-{k}', fn='foreign', args={'o': {k: 4 if k == 'gap' else True}, 'symb': True},
                   bounds=f'foreign archive, {k}')
    yield dict(name='names', fn='names', bounds='names of 0 to 3 free characters in every list')
    yield dict(name='edit', fn='edit', bounds='entries renamed, removed, swapped and inserted after loading')
    yield dict(name='parsed', fn='parsed', bounds='sequences and sequence archives parsed before saving')
    yield dict(name='groups', fn='groups', bounds='every group entry')
    yield dict(name='players', fn='players', bounds='every channel set of a window, every channel list')
    yield dict(name='links', fn='links', bounds='0 to 5 wave archive links')
    yield dict(name='subnames', fn='subnames', bounds='sequence archives with and without names inside')
    yield dict(name='many', fn='many', bounds='300 entries with one free among them')
    yield dict(name='empty', fn='empty', bounds='an empty archive')
    yield dict(name='reference', fn='reference', bounds='both ways of making group entries')


def name(e, key, n):
    return e.str(key, n, 1, 255)


def part(e, part, n):
    a = sdatobj.blank()
    for i in range(n):
        kind = e.pick(f'kind{i}', 0, 3)
        a[part].append((name(e, f'name{i}', 1 + i) if kind & 1 else None, sdatobj.entry(e, part, i, 1 + i) if kind & 2 else None))
    check(e, a)


def trip(e, a, opts=None):
    s = sdatobj.archive(a)
    setopts(s, opts or {})
    d = bytes(s.save())
    return s, d, sarc.SDAT(d)


def setopts(s, o):
    if 'al' in o:
        s.fileAlignment = o['al']
    s.firstFileAlignment = o.get('first')
    s.fatLengthsIncludePadding = o.get('padded', False)
    s.padAtEnd = o.get('end', True)
    s.padSymbSizeTo4InSDATHeader = o.get('padsymb', False)


def check(e, a, opts=None):
    s, d, t = trip(e, a, opts)
    sdatobj.same(e, t, a)
    d2 = bytes(t.save())
    sdatobj.same(e, sarc.SDAT(d2), a, 'after saving twice')
    sdatobj.same(e, s, a, 'the original')


def everything(e, n=1, named=True):
    a = sdatobj.blank()
    for k, part in enumerate(sdatref.PARTS):
        for i in range(n):
            a[part].append((name(e, f'{part}_name{i}', 1 + (k + i) % 3) if named and (k + i) % 4 else None,
                            sdatobj.entry(e, part, i + k, 1 + (i + k) % 3)))
    return a


def options(e, o):
    check(e, everything(e), o)


def numbered(a):
    """Moves the files into a list of their own."""
    files, out = [], {}
    for part in sdatref.PARTS:
        out[part] = []
        for n, v in a[part]:
            if v is not None:
                v = list(v)
                if part in sdatref.FILES:
                    files.append(v[-1])
                    v[-1] = len(files) - 1
            out[part].append((n, v))
    return out, files


def foreign(e, o, symb):
    a = everything(e, 2)
    if o.get('shareSymbols'):
        a = {p: [(x if x is None else 'AB'[i % 2] * len(x), v) for i, (x, v) in enumerate(a[p])] for p in a}
    b, files = numbered(sdatobj.asread(a))
    d = sdatref.build(b, files, symb=symb, **o)
    t = sarc.SDAT(d)
    want = {}
    for part in a:
        want[part] = []
        for i, (n, v) in enumerate(a[part]):
            if not symb or o.get('short') and i >= len(a[part]) // 2:
                n = None
                if part == 'ssar':
                    v = [v[0], [None] * len(v[1]), v[2]]
            want[part].append((n, v))
    sdatobj.same(e, t, want)
    sdatobj.same(e, sarc.SDAT(bytes(t.save())), want, 'after saving')


def foreignpart(e, part):
    a = sdatobj.blank()
    for i in range(2):
        kind = e.pick(f'kind{i}', 0, 3)
        a[part].append((name(e, f'name{i}', 1 + i) if kind & 1 else None, sdatobj.entry(e, part, i, 1 + i) if kind & 2 else None))
    b, files = numbered(sdatobj.asread(a))
    t = sarc.SDAT(sdatref.build(b, files, reverse=e.choice('reverse', [False, True])))
    sdatobj.same(e, t, a)
    sdatobj.same(e, sarc.SDAT(bytes(t.save())), a, 'after saving')


def names(e):
    part = e.choice('part', sdatref.PARTS)
    a = sdatobj.blank()
    n = e.pick('len', 0, 3)
    a[part].append((name(e, 'name', n), sdatobj.entry(e, part, 0)))
    a[part].append((None, None))
    a[part].append((name(e, 'other', 2), None))
    other = e.choice('also', [p for p in ('seq', 'strm', 'ssar') if p != part])
    a[other].append((name(e, 'more', 1), sdatobj.entry(e, other, 1)))
    check(e, a)


def edit(e):
    part = e.choice('part', sdatref.PARTS)
    a = sdatobj.blank()
    for i in range(3):
        a[part].append((f'N{i}', sdatobj.entry(e, part, i)))
    _, _, t = trip(e, a)
    lst = getattr(t, sdatobj.ATTR[part])
    how = e.choice('how', ['rename', 'remove', 'swap', 'insert', 'clear', 'unname'])
    if how == 'rename':
        lst[1] = ('renamed', lst[1][1])
        a[part][1] = ('renamed', a[part][1][1])
    elif how == 'unname':
        lst[1] = (None, lst[1][1])
        a[part][1] = (None, a[part][1][1])
    elif how == 'remove':
        del lst[0]
        del a[part][0]
    elif how == 'swap':
        lst.reverse()
        a[part].reverse()
    elif how == 'insert':
        v = sdatobj.entry(e, part, 3)
        lst.insert(1, ('new', sdatobj.make(part, v)))
        a[part].insert(1, ('new', v))
    else:
        lst[2] = (lst[2][0], None)
        a[part][2] = (a[part][2][0], None)
    sdatobj.same(e, sarc.SDAT(bytes(t.save())), a)


def parsed(e):
    a = sdatobj.blank()
    a['seq'] = [('s', sdatobj.entry(e, 'seq', 0, 1)), (None, sdatobj.entry(e, 'seq', 1, 1))]
    for _, v in a['seq']:
        # 0x80 n 0xFF: a rest
        v[6] = v[6][:0x1C] + b'\x80' + bytes([v[6][0x1C] & 0x7F]) + b'\xff' + v[6][0x1E:]
        v[6] = v[6][:8] + bytes([0x1F]) + v[6][9:0x14] + bytes([0x0F]) + v[6][0x15:0x1F]
    _, _, t = trip(e, a)
    t.sequences[0][1].parse()
    u = sarc.SDAT(bytes(t.save()))
    sdatobj.same(e, u, a)
    u.sequences[1][1].parse()
    e.check(len(u.sequences[1][1].events) == 2, 'events')


def groups(e):
    a = sdatobj.blank()
    t = e.pick('type', 0, 3)
    o = e.pick('options', 0, 15)
    a['group'] = [('g', [[t, o, e.int('id', 0, 0xFFFFFFFF)], [3 - t, 15 - o, 5]]), (None, []), ('e', None)]
    check(e, a)


def players(e):
    a = sdatobj.blank()
    k = e.choice('at', [0, 5, 11])
    a['player'] = [('p', [e.int('max', 0, 65535), (e.pick('mask', 0, 31) << k), e.int('heap', 0, 0xFFFFFFFF)])]
    n = e.pick('n', 0, 3) if k else 16
    a['splayer'] = [(None, [e.int(f'c{i}', 0, 255) for i in range(n)]), ('sp', [1, 2, 3])]
    check(e, a)


def links(e):
    n = e.pick('n', 0, 5)
    ids = [e.int(f'w{i}', 0, 32767) if i == 4 or e.bool(f'b{i}') else None for i in range(n)]
    a = sdatobj.blank()
    v = sdatobj.entry(e, 'bank', 0)
    v[1] = ids
    a['bank'] = [('b', v)]
    s = sdatobj.archive(a)
    x = e.raises(ValueError, s.save)
    e.check((x is not None) == (n > 4), 'at most four links')
    if n > 4:
        return
    t = sarc.SDAT(bytes(e.result))
    v = list(v)
    v[1] = ids + [None] * (4 - n)
    a['bank'] = [('b', v)]
    sdatobj.same(e, t, a)


def subnames(e):
    a = sdatobj.blank()
    for i in range(2):
        v = sdatobj.entry(e, 'ssar', i + 1)
        v[1] = [name(e, f'n{i}{k}', 1) if e.choice(f'b{i}{k}', [False, True]) else None for k in range(i + 1)]
        a['ssar'].append((f'S{i}' if e.choice(f'named{i}', [False, True]) else None, v))
    a['ssar'].insert(e.pick('hole', 0, 2), (None, None))
    check(e, a)


def many(e):
    a = sdatobj.blank()
    for i in range(300):
        a['player'].append((f'P{i}' if i % 3 else None, [i, i, i] if i % 7 else None))
    k = e.choice('k', [0, 150, 299])
    a['player'][k] = (name(e, 'name', 2), sdatobj.entry(e, 'player', 1))
    check(e, a)


def empty(e):
    a = sdatobj.blank()
    check(e, a)
    sarc.SDAT().sequences.append(('x', None))
    sdatobj.same(e, sarc.SDAT(), a, 'a new archive')


def reference(e):
    import ndspy.soundGroup as sg
    f = [e.bool(f'f{i}') for i in range(4)]
    t, i = e.pick('t', 0, 3), e.int('id', 0, 0xFFFFFFFF)
    g = sg.GroupEntry.fromFlags(sg.GroupEntryType(t), i, f[0], sg.SWARLoadMethod.SWAR_IDS if f[1] else sg.SWARLoadMethod.FILE_IDS,
                                f[2], f[3])
    o = e.ite(f[0], 1, 0) + e.ite(f[1], 2, 0) + e.ite(f[2], 4, 0) + e.ite(f[3], 8, 0)
    e.check_eq(list(g.save()), [t, o, i], 'saved')
    h = sg.GroupEntry(t, o, i)
    e.check_eq([h.loadSSEQ, h.loadSBNKSWARsFrom == sg.SWARLoadMethod.SWAR_IDS, h.loadSWAR, h.loadSSAR], f, 'flags')
    e.check_eq(list(h.save()), [t, o, i], 'saved from options')
    e.check(list(sg.GroupEntry().save()) == [0, 2, 0], 'default')
