"""Q03: sequence archives survive saving and loading."""

import ndspy.soundSequenceArchive as sa
from refs import seqref, seqobj

ASSUMPTIONS = ['control flow as in Q02', 'at most 4 sequences']
FIELDS = ['bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID']

BODY = [('rest',), ('end',), ('note',), ('jump', 0), ('track', 1, 2), ('end',), ('if',), ('jump', 2), ('end',)]
STARTS = [0, 2, 4, 6]


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 4 if q else 5):
        yield dict(name=f'archive-{n}', fn='archive', args={'n': n}, max_paths=5000,
                   bounds=f'{n} sequences, every choice of starts among {STARTS} or none, free parameters')
    for n in range(0, 4):
        yield dict(name=f'unparsed-{n}', fn='unparsed', args={'n': n}, max_paths=5000,
                   bounds=f'{n} sequences with any offsets, 0 to 4 bytes of any event data')
    for n in (1, 2) if q else (1, 2, 3):
        yield dict(name=f'names-{n}', fn='names', args={'n': n}, bounds='0 to all names given, some of them None')
    yield dict(name='params', fn='params', bounds='all parameters free')
    yield dict(name='defaults', fn='defaults', bounds='default parameters')
    yield dict(name='foreign', fn='foreign', bounds='gap before the data, bytes behind the end of the file')
    yield dict(name='raw', fn='raw', bounds='unreachable bytes between sequences')
    yield dict(name='far', fn='far', ticks=5000000, bounds='a sequence starting behind 65536 to 65538 unreachable bytes')
    yield dict(name='middle', fn='middle', bounds='sequences starting in the middle of each other')
    yield dict(name='edit', fn='edit', bounds='events inserted and sequences added to a parsed archive')
    yield dict(name='states', fn='states', bounds='access in the wrong state, mixed states')
    yield dict(name='shared', fn='shared', bounds='the same sequence object or first event twice')
    yield dict(name='failed', fn='failed', bounds='parsing of bad data')


def body(e):
    out = []
    for i, v in enumerate(BODY):
        if v[0] == 'rest':
            v = seqobj.symbolic(e, 'rest', i, 1)
        elif v[0] == 'note':
            v = seqobj.symbolic(e, 'note', i, 0)
        out.append(v)
    return out


def vals(e, i):
    return [e.int(f'bank{i}', 0, 65535)] + [e.int(f'{n}{i}', 0, 255) for n in ('vol', 'cp', 'pp', 'player')]


def fields(s):
    return [getattr(s, n) for n in FIELDS]


def archive(e, n):
    p = body(e)
    objs = seqobj.make(p)
    # something has to make every event reachable
    starts = [e.choice(f's{i}', STARTS + [None]) for i in range(n)]
    extra = [s for s in STARTS if s not in starts]
    seqs, vs = [], []
    for i, s in enumerate(starts + extra):
        v = vals(e, i)
        vs.append(v)
        seqs.append((f'SEQ_{i}' if i % 3 else None, sa.SSARSequence(None if s is None else objs[s], *v)))
    unk = e.int('unk', 0, 65535)
    a = sa.SSAR.fromEventsAndSequences(objs, seqs, unk)
    d, u, names = a.save()
    d = bytes(d)
    ref, pos = seqref.encode(p)
    table, data = seqref.read_ssar(e, d)
    e.check_eq(data, ref, 'event data')
    e.check(len(table) == len(seqs), 'number of sequences')
    for t, s, v in zip(table, starts + extra, vs):
        e.check_eq(t, [0xFFFFFFFF if s is None else pos[s]] + v, 'table entry')
    e.check_eq(u, unk, 'unk02')
    e.check([x for x, _ in seqs] == list(names), 'names')
    b = sa.SSAR(d, u, names)
    e.check_eq(b.unk02, unk, 'unk02 loaded')
    e.check_eq(bytes(b.save()[0]), d, 'saved without parsing')
    b.parse()
    seqobj.same(e, b.events, p)
    compare(e, b, [x for x, _ in seqs], starts + extra, vs)
    r = b.save()
    e.check_eq(bytes(r[0]), d, 'saved after parsing')
    e.check(list(r[2]) == [x for x, _ in seqs], 'names after parsing')


def compare(e, b, names, starts, vs):
    e.check(len(b.sequences) == len(starts), 'number of sequences loaded')
    e.check([x for x, _ in b.sequences] == list(names), 'names loaded')
    for (_, q), s, v in zip(b.sequences, starts, vs):
        e.check_eq(fields(q), v, 'parameters')
        if s is None:
            e.check(q.firstEvent is None, 'no first event')
        else:
            e.check(q.firstEvent is b.events[s], 'first event')
        e.check(q.parsed, 'parsed')


def unparsed(e, n):
    d = e.bytes('d', e.pick('len', 0, 4))
    seqs, offs = [], []
    for i in range(n):
        o = e.int(f'o{i}', -1, 0x7FFFFFFF)
        offs.append(o)
        seqs.append([o & 0xFFFFFFFF] + vals(e, i))
    f = seqref.ssar(seqs, d)
    a = sa.SSAR(f)
    e.check_eq(a.eventsData, d, 'event data')
    e.check(len(a.sequences) == n, 'number of sequences')
    for (name, s), v, o in zip(a.sequences, seqs, offs):
        e.check(name is None, 'no name')
        e.check(not s.parsed, 'not parsed')
        e.check_eq(fields(s), v[1:], 'parameters')
        if s.firstEventOffset is None:
            e.check_eq(o, -1, 'empty')
        else:
            e.check_eq(s.firstEventOffset, o, 'offset')
            e.check(o >= 0, 'not empty')
    e.check_eq(bytes(a.save()[0]), f, 'saved')


def names(e, n):
    k = e.pick('given', 0, n + 1)
    if k == n + 1:
        given = None
    else:
        given = [e.choice(f'name{i}', ['A', 'B', '', None]) for i in range(k)]
    f = seqref.ssar([[0, 1, 2, 3, 4, 5]] * n, b'\xff')
    a = sa.SSAR(f, names=given)
    want = ((given or []) + [None] * n)[:n]
    e.check([x for x, _ in a.sequences] == want, 'names')
    e.check(list(a.save()[2]) == want, 'names saved')
    if given is not None:
        e.check(len(given) == k, 'the list of names is left alone')


def params(e):
    v = vals(e, 0)
    s = sa.SSARSequence(None, *v)
    e.check_eq(list(s.save()), [None] + v, 'parsed')
    o = e.int('o', 0, 0x7FFFFFFF)
    s = sa.SSARSequence(o, *v, parsed=False)
    e.check_eq(list(s.save()), [o] + v, 'unparsed')
    s = sa.SSARSequence(-1, *v, parsed=False)
    e.check(s.firstEventOffset is None, 'empty')
    new = [e.int(f'new{i}', 0, 255) for i in range(5)]
    for n, x in zip(FIELDS, new):
        setattr(s, n, x)
    a = sa.SSAR(seqref.ssar([], b''))
    a.sequences.append(('x', s))
    t, _ = seqref.read_ssar(e, bytes(a.save()[0]))
    e.check_eq(t, [[0xFFFFFFFF] + new], 'changed parameters')


def defaults(e):
    s = sa.SSARSequence(None)
    e.check(fields(s) == [0, 127, 64, 50, 0], 'sequence')
    e.check(s.parsed, 'new sequences are parsed')
    a = sa.SSAR()
    e.check(a.unk02 == 0 and a.sequences == [] and a.events == [] and a.parsed, 'archive')
    d, u, n = a.save()
    e.check(bytes(d) == seqref.ssar([], b'') and u == 0 and n == [], 'saved')
    b = sa.SSAR(bytes(d), u, n)
    b.parse()
    e.check(b.events == [] and b.sequences == [], 'parsed again')
    c = sa.SSAR(seqref.ssar([[None, 1, 2, 3, 4, 5]] * 2, b''))
    c.parse()
    e.check(c.events == [], 'only empty sequences')
    e.check(bytes(c.save()[0]) == seqref.ssar([[None, 1, 2, 3, 4, 5]] * 2, b''), 'only empty sequences, saved')
    c.sequences[0][1].firstEvent = None
    sa.SSAR().sequences.append(1)
    e.check(sa.SSAR().sequences == [] and sa.SSAR().events == [], 'new archives share nothing')


def foreign(e):
    gap, after = e.choice('gap', [0, 4, 16]), e.pick('after', 0, 2)
    p = body(e)
    ref, pos = seqref.encode(p)
    seqs = [[pos[s]] + [s, 2, 3, 4, 5] for s in STARTS]
    a = sa.SSAR(seqref.ssar(seqs, ref, gap, e.bytes('after_', after)))
    e.check_eq(a.eventsData, ref, 'event data')
    want = seqref.ssar(seqs, ref)
    e.check_eq(bytes(a.save()[0]), want, 'saved unparsed')
    a.parse()
    seqobj.same(e, a.events, p)
    e.check_eq(bytes(a.save()[0]), want, 'saved parsed')


def raw(e):
    a, b, c = (e.pick(x, 0, 2) for x in 'abc')
    p, starts = [], []
    for i, n in enumerate((a, b, c)):
        if n:
            p.append(('raw', e.bytes(f'raw{i}', n)))
        if i < 2:
            starts.append(len(p))
            p += [seqobj.symbolic(e, 'rest', i, i), ('end',)]
    d, pos = seqref.encode(p)
    order = e.choice('order', [[0, 1], [1, 0]])
    seqs = [[pos[starts[i]], 1, 2, 3, 4, 5] for i in order]
    f = seqref.ssar(seqs, d)
    s = sa.SSAR(f)
    s.parse()
    seqobj.same(e, s.events, p)
    for i, (_, q) in zip(order, s.sequences):
        e.check(q.firstEvent is s.events[starts[i]], 'first event')
    e.check_eq(bytes(s.save()[0]), f, 'saved')


def far(e):
    p = [seqobj.symbolic(e, 'rest', 0, 0), ('end',), ('raw', e.bytes('r', 1) + bytes(0xFFFF + e.pick('n', 0, 2))),
         seqobj.symbolic(e, 'note', 1, 1), ('end',)]
    d, pos = seqref.encode(p)
    f = seqref.ssar([[pos[i], 1, 2, 3, 4, 5] for i in (3, 0)], d)
    s = sa.SSAR(f)
    e.check(s.sequences[0][1].firstEventOffset == pos[3], 'start of the sequence')
    s.parse()
    seqobj.same(e, s.events, p)
    e.check(s.sequences[0][1].firstEvent is s.events[3], 'first event')
    e.check_eq(bytes(s.save()[0]), f, 'saved')


def middle(e):
    p = [seqobj.symbolic(e, 'note', 0, 1), seqobj.symbolic(e, 'rest', 1, 1), seqobj.symbolic(e, 'note', 2, 0), ('end',)]
    d, pos = seqref.encode(p)
    order = [e.pick(f's{i}', 0, 3) for i in range(3)] + [0]
    f = seqref.ssar([[pos[i], 1, 2, 3, 4, 5] for i in order], d)
    s = sa.SSAR(f)
    s.parse()
    seqobj.same(e, s.events, p)
    compare(e, s, [None] * 4, order, [[1, 2, 3, 4, 5]] * 4)
    e.check_eq(bytes(s.save()[0]), f, 'saved')


def edit(e):
    p = body(e)
    d, pos = seqref.encode(p)
    s = sa.SSAR(seqref.ssar([[pos[i], i, 2, 3, 4, 5] for i in STARTS], d), names=['a', 'b', 'c', 'd'])
    s.parse()
    at = e.pick('at', 0, len(p))
    new = ('note', e.int('pitch', 0, 127), 1, False, 200)
    s.events.insert(at, seqobj.make1(new))

    def moved(t):
        return t + 1 if t >= at else t
    q = [v[:-1] + (moved(v[-1]),) if v[0] in ('jump', 'call', 'track') else v for v in p]
    q.insert(at, new)
    k = e.pick('place', 0, 4)
    first = e.choice('first', [None, 0, len(p)])
    v = vals(e, 0)
    s.sequences.insert(k, ('new', sa.SSARSequence(None if first is None else s.events[first], *v)))
    del s.sequences[(k + 2) % 5]
    ref, pos2 = seqref.encode(q)
    want = [[pos2[moved(i)], i, 2, 3, 4, 5] for i in STARTS]
    want.insert(k, [None if first is None else pos2[first]] + v)
    del want[(k + 2) % 5]
    wn = ['a', 'b', 'c', 'd']
    wn.insert(k, 'new')
    del wn[(k + 2) % 5]
    r = s.save()
    e.check_eq(bytes(r[0]), seqref.ssar(want, ref), 'saved')
    e.check(list(r[2]) == wn, 'names')


def states(e):
    s = sa.SSAR(seqref.ssar([[0, 1, 2, 3, 4, 5]], b'\xff'))
    q = s.sequences[0][1]
    e.check(not s.parsed, 'not parsed after loading')
    e.check(e.raises(ValueError, lambda: s.events) is not None, 'no events before parsing')
    e.check(e.raises(ValueError, lambda: q.firstEvent) is not None, 'no first event before parsing')
    e.check(q.firstEventOffset == 0, 'offset')
    s.sequences.append(('parsed', sa.SSARSequence(None)))
    e.check(e.raises(ValueError, s.save) is not None, 'parsed sequence in an unparsed archive')
    del s.sequences[1]
    s.parse()
    e.check(s.parsed, 'parsed')
    e.check(e.raises(ValueError, lambda: s.eventsData) is not None, 'no data after parsing')
    e.check(e.raises(ValueError, lambda: q.firstEventOffset) is not None, 'no offset after parsing')
    e.check(q.firstEvent is s.events[0], 'first event')
    ev = s.events
    s.parse()
    e.check(s.events is ev, 'parsing twice does nothing')
    s.sequences.append(('unparsed', sa.SSARSequence(0, parsed=False)))
    e.check(e.raises(ValueError, s.save) is not None, 'unparsed sequence in a parsed archive')


def shared(e):
    p = [('rest', e.int('r', 0, 127)), ('end',), ('note', e.int('n', 0, 127), 1, False, 5), ('end',)]
    o = seqobj.make(p)
    q = sa.SSARSequence(o[2], *vals(e, 0))
    r = sa.SSARSequence(o[2], *vals(e, 1))
    t = sa.SSARSequence(o[0], *vals(e, 2))
    order = [[q, r, t][e.pick(f's{i}', 0, 2)] for i in range(3)]
    a = sa.SSAR.fromEventsAndSequences(o, [(f'{i}', x) for i, x in enumerate(order)])
    d, pos = seqref.encode(p)
    want = [[0 if x is t else pos[2]] + fields(x) for x in order]
    f, _, names = a.save()
    e.check_eq(bytes(f), seqref.ssar(want, d), 'saved')
    e.check(names == ['0', '1', '2'], 'names')


def failed(e):
    bad = e.choice('bad', [b'\x90\xff', b'\x3c\x01\x02', b'\xfd', b'\x94\x05\0\0'])
    f = seqref.ssar([[0, 1, 2, 3, 4, 5], [None, 1, 2, 3, 4, 5]], bad)
    s = sa.SSAR(f)
    e.check(e.raises(Exception, s.parse) is not None, 'refused')
    e.check(not s.parsed, 'still unparsed')
    e.check(bytes(s.save()[0]) == f, 'can still be saved')
