"""Q02: whole sequences survive saving and loading."""

import itertools

import ndspy.soundSequence as ss
from refs import seqref, seqobj

ASSUMPTIONS = ['the control flow of the sequence is one the library follows (its documentation says parsing can fail '
               'for complicated data): every event is reachable or follows as raw data, tracks end or loop, no '
               'recursion, no target directly behind an if, no track started from a subroutine']
PARAMS = ['unk02', 'bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID']


def programs(n, kinds):
    """All well-behaved programs of n events of the given kinds."""
    opts = []
    for k in kinds:
        if k in ('jump', 'call'):
            opts += [(k, t) for t in range(n)]
        elif k == 'track':
            opts += [(k, 1, t) for t in range(n)]
        else:
            opts.append((k,))
    return [p for p in itertools.product(opts, repeat=n) if p[-1][0] in ('end', 'jump', 'return', 'call') and seqref.flow(p)]


FLOW = ['note', 'if', 'jump', 'call', 'return', 'end', 'track']
FAMILIES = [
    # a subroutine called from two tracks
    [('track', 1, 4), ('call', 6), ('note',), ('end',), ('call', 6), ('jump', 4), ('rest',), ('return',)],
    # nested subroutines and conditional jumps
    [('if',), ('jump', 5), ('call', 6), ('rest',), ('end',), ('jump', 2), ('if',), ('call', 9), ('return',), ('note',), ('return',)],
    # two tracks looping, targets before and behind
    [('tracks',), ('track', 1, 6), ('track', 2, 3), ('rest',), ('note',), ('jump', 3), ('note',), ('rest',), ('jump', 6)],
    # jumping forwards over a subroutine
    [('jump', 4), ('note',), ('rest',), ('return',), ('call', 1), ('if',), ('call', 1), ('jump', 4)],
    # if around everything that may be skipped
    [('if',), ('note',), ('if',), ('end',), ('if',), ('jump', 0), ('if',), ('call', 10), ('rest',), ('end',), ('if',),
     ('return',), ('note',), ('return',)],
    # a track and the main part sharing their tails
    [('track', 3, 3), ('note',), ('jump', 4), ('rest',), ('note',), ('end',)],
    # subroutine with a jump into a shared tail
    [('call', 4), ('call', 6), ('call', 4), ('end',), ('note',), ('jump', 7), ('rest',), ('note',), ('return',)],
    # loops
    [('begin',), ('note',), ('begin',), ('rest',), ('endloop',), ('endloop',), ('jump', 1)],
]


def cases(tier):
    q = tier == 'quick'
    small = [p for n in (1, 2, 3) for p in programs(n, FLOW)]
    small += programs(4, FLOW)
    if not q:
        small += programs(5, ['if', 'jump', 'call', 'return', 'end'])
    step = 200 if q else 400
    for i in range(0, len(small), step):
        yield dict(name=f'programs-{i // step}', fn='program', args={'ps': small[i:i + step]}, max_paths=5000,
                   bounds=f'control flow programs {i} to {i + step - 1} of all {len(small)} small ones, free parameters')
    for i, f in enumerate(FAMILIES):
        assert i in (7,) or seqref.flow(f), i
        yield dict(name=f'family-{i}', fn='program', args={'ps': [f]}, bounds='free parameters')
    yield dict(name='targets', fn='targets', bounds='jump, call and track start between events of free sizes')
    yield dict(name='file', fn='file', bounds='one note, all file parameters')
    yield dict(name='foreign', fn='foreign', bounds='data at another offset, data behind the end of the file')
    yield dict(name='unparsed', fn='unparsed', bounds='0 to 6 bytes of any event data, never parsed')
    yield dict(name='raw', fn='raw', bounds='1 to 4 unreachable bytes in the middle and at the end')
    yield dict(name='repeated', fn='repeated', bounds='the same event object in several places')
    yield dict(name='edit', fn='edit', bounds='an event inserted into a parsed sequence')
    yield dict(name='replace', fn='replace', bounds='event data replaced before parsing')
    yield dict(name='empty', fn='empty', bounds='no events')
    yield dict(name='states', fn='states', bounds='access to events and data in the wrong state')
    yield dict(name='notable', fn='notable', bounds='every pair of notable positions')
    yield dict(name='missing', fn='missing', bounds='targets that are not in the list')
    yield dict(name='cutoff', fn='cutoff', bounds='sequences that run off the end of their data')
    yield dict(name='veryfar', fn='veryfar', ticks=5000000, bounds='jump, call and track start over 65536 to 65538 unreachable bytes')
    yield dict(name='far', fn='far', bounds='300 events before and behind a jump')


def fill(e, p):
    """Gives the events of a program free parameters."""
    out = []
    for i, v in enumerate(p):
        if v[0] == 'note':
            out.append(seqobj.symbolic(e, 'note', i, i % 2))
        elif v[0] == 'rest':
            out.append(seqobj.symbolic(e, 'rest', i, i % 3))
        elif v[0] == 'track':
            out.append(('track', e.int(f'track{i}', 0, 15), v[2]))
        elif v[0] == 'tracks':
            out.append(('tracks', 0x8001))
        elif v[0] == 'begin':
            out.append(seqobj.symbolic(e, 'simple', i, 0xD4))
        else:
            out.append(tuple(v))
    return out


def program(e, ps):
    p = fill(e, ps[e.pick('program', 0, len(ps) - 1)])
    objs = seqobj.make(p)
    ref, _ = seqref.encode(p)
    s = ss.SSEQ.fromEvents(objs)
    d = bytes(s.save()[0])
    e.check_eq(seqref.read_sseq(e, d), ref, 'saved data')
    t = ss.SSEQ(d)
    t.parse()
    seqobj.same(e, t.events, p)
    e.check_eq(t.save()[0], d, 'saved again')
    e.check(len(s.events) == len(objs), 'the original keeps its events')
    e.check(all(a is b for a, b in zip(s.events, objs)), 'the original keeps its event objects')


def targets(e):
    """Events of free sizes between a reference and what it refers to."""
    k = e.choice('k', ['jump', 'call', 'track'])
    a, b = e.pick('a', 0, 4), e.pick('b', 0, 4)
    forward = e.choice('forward', [False, True])
    x, y = seqobj.symbolic(e, 'rest', 0, a), seqobj.symbolic(e, 'note', 1, b)
    if forward:
        ref = {'jump': ('jump', 3), 'call': ('call', 3), 'track': ('track', 9, 3)}[k]
        p = [x, ref, y if k != 'jump' else None, ('note', 1, 2, True, 3), y, ('return',) if k == 'call' else ('end',)]
        if k == 'jump':
            p = [x, ('jump', 2), ('note', 1, 2, True, 3), y, ('end',)]
            objs = seqobj.make(p)
            got, _ = ss.readSequenceEvents(bytes(ss.saveSequenceEvents(objs)[0]))
            seqobj.same(e, got, p)
            return
        p[2] = ('end',)
    else:
        if k == 'call':
            p = [('jump', 3), x, ('return',), y, ('call', 1), ('end',)]
        elif k == 'track':
            p = [x, ('jump', 3), ('if',), ('if',), ('if',), y, ('track', 2, 0), ('end',)]
            p = [('jump', 3), x, ('end',), y, ('track', 2, 1), ('end',)]
        else:
            p = [y, x, ('if',), ('jump', 1), ('jump', 0)]
    ref, _ = seqref.encode(p)
    d, _ = ss.saveSequenceEvents(seqobj.make(p))
    e.check_eq(bytes(d), ref, 'saved data')
    got, _ = ss.readSequenceEvents(bytes(d))
    seqobj.same(e, got, p)


def ctor(e, d, vals):
    return ss.SSEQ(d, *vals)


def vals(e):
    return [e.int('unk', 0, 65535), e.int('bank', 0, 65535)] + [e.int(n, 0, 255) for n in ('vol', 'cp', 'pp', 'player')]


def params(s):
    return [getattr(s, n) for n in PARAMS]


def file(e):
    v = vals(e)
    p = [seqobj.symbolic(e, 'note', 0, 1), ('end',)]
    d = seqref.sseq(seqref.encode(p)[0])
    s = ss.SSEQ(d, *v)
    e.check_eq(params(s), v, 'parameters')
    r = s.save()
    e.check_eq(bytes(r[0]), d, 'unparsed: same file')
    e.check_eq(list(r[1:]), v, 'unparsed: parameters')
    s.parse()
    e.check_eq(params(s), v, 'parameters after parsing')
    seqobj.same(e, s.events, p)
    r = s.save()
    e.check_eq(bytes(r[0]), d, 'parsed: same file')
    e.check_eq(list(r[1:]), v, 'parsed: parameters')
    s.parse()
    seqobj.same(e, s.events, p, 'parsed twice')
    t = ss.SSEQ.fromEvents(s.events, *v)
    r = t.save()
    e.check_eq(bytes(r[0]), d, 'made from events: same file')
    e.check_eq(list(r[1:]), v, 'made from events: parameters')
    u = ss.SSEQ(d)
    e.check(params(u) == [0, 0, 127, 64, 50, 0], 'default parameters')


def foreign(e):
    gap, after = e.choice('gap', [0, 4, 0x20]), e.pick('after', 0, 2)
    p = [seqobj.symbolic(e, 'rest', 0, 1), ('if',), ('jump', 0), ('end',)]
    ev = seqref.encode(p)[0]
    s = ss.SSEQ(seqref.sseq(ev, 0x1C + gap, e.bytes('after_', after)))
    e.check_eq(s.eventsData, ev, 'event data')
    want = seqref.sseq(ev)
    e.check_eq(bytes(s.save()[0]), want, 'saved unparsed')
    s.parse()
    seqobj.same(e, s.events, p)
    e.check_eq(bytes(s.save()[0]), want, 'saved parsed')


def unparsed(e):
    d = e.bytes('d', e.pick('n', 0, 6))
    s = ss.SSEQ(seqref.sseq(d))
    e.check_eq(s.eventsData, d, 'event data')
    e.check_eq(bytes(s.save()[0]), seqref.sseq(d), 'saved')
    e.check_eq(s.eventsData, d, 'event data after saving')


def raw(e):
    a, b = e.pick('a', 0, 4), e.pick('b', 0, 4)
    x, y = e.bytes('x', a), e.bytes('y', b)
    p = [('jump', 2 if a else 1)] + ([('raw', x)] if a else []) + [('note', 60, 100, False, 48), ('end',)] + ([('raw', y)] if b else [])
    d = seqref.encode(p)[0]
    got, _ = ss.readSequenceEvents(d)
    seqobj.same(e, got, p)
    e.check_eq(bytes(ss.saveSequenceEvents(got)[0]), d, 'saved')


def repeated(e):
    v = [seqobj.symbolic(e, 'note', 0, 0), seqobj.symbolic(e, 'rest', 1, 1)]
    o = [seqobj.make1(x) for x in v]
    order = [e.pick(f'o{i}', 0, 1) for i in range(4)]
    j = ss.JumpSequenceEvent(o[order[0]])
    d, _ = ss.saveSequenceEvents([o[i] for i in order] + [j])
    p = [v[i] for i in order] + [('jump', 0)]
    e.check_eq(bytes(d), seqref.encode(p)[0], 'saved')
    got, _ = ss.readSequenceEvents(bytes(d))
    seqobj.same(e, got, p)


def edit(e):
    p = [('track', 1, 3), ('rest', 48), ('jump', 1), ('note', 60, 1, False, 3), ('call', 6), ('end',), ('rest', 300), ('return',)]
    s = ss.SSEQ(seqref.sseq(seqref.encode(p)[0]))
    s.parse()
    at = e.pick('at', 0, len(p) - 1)
    new = seqobj.symbolic(e, 'note', 0, e.pick('size', 0, 2))
    s.events.insert(at, seqobj.make1(new))

    def moved(t):
        return t + 1 if t >= at else t
    q = []
    for v in p:
        if v[0] in ('jump', 'call', 'track'):
            v = v[:-1] + (moved(v[-1]),)
        q.append(v)
    q.insert(at, new)
    d = bytes(s.save()[0])
    e.check_eq(d, seqref.sseq(seqref.encode(q)[0]), 'saved')


def replace(e):
    s = ss.SSEQ(seqref.sseq(b'\xff'))
    p = [seqobj.symbolic(e, 'rest', 0, 1), ('end',)]
    d = seqref.encode(p)[0]
    s.eventsData = d
    e.check_eq(bytes(s.save()[0]), seqref.sseq(d), 'saved')
    s.parse()
    seqobj.same(e, s.events, p)
    o = seqobj.make([('note', 1, 2, False, 3), ('end',)])
    s.events = o
    e.check_eq(bytes(s.save()[0]), seqref.sseq(seqref.encode([('note', 1, 2, False, 3), ('end',)])[0]), 'saved after replacing')


def empty(e):
    for s in (ss.SSEQ(), ss.SSEQ.fromEvents([]), ss.SSEQ(seqref.sseq(b''))):
        d = bytes(s.save()[0])
        e.check(d == seqref.sseq(b''), 'saved')
        t = ss.SSEQ(d)
        e.check(t.eventsData == b'', 'data')
        t.parse()
        e.check(t.events == [], 'events')


def states(e):
    s = ss.SSEQ(seqref.sseq(b'\x80' + bytes([5]) + b'\xff'))
    e.check(not s.parsed, 'not parsed after loading')
    e.check(e.raises(ValueError, lambda: s.events) is not None, 'no events before parsing')
    s.parse()
    e.check(s.parsed, 'parsed')
    e.check(e.raises(ValueError, lambda: s.eventsData) is not None, 'no data after parsing')
    e.check(ss.SSEQ().parsed, 'new sequences are parsed')
    # parsing that fails leaves the sequence as it was
    bad = b'\x80' + bytes([5]) + bytes([e.choice('t', [0x90, 0xE2, 0xF0])])
    s = ss.SSEQ(seqref.sseq(bad))
    e.check(e.raises(Exception, s.parse) is not None, 'unknown events are refused')
    e.check(not s.parsed, 'still unparsed')
    e.check(bytes(s.save()[0]) == seqref.sseq(bad), 'saved unparsed')


def notable(e):
    p = [seqobj.symbolic(e, 'rest', 0, 1), ('end',), seqobj.symbolic(e, 'note', 1, 0), ('jump', 0), ('rest', 0), ('end',)]
    d, pos = seqref.encode(p)
    a = e.choice('a', [0, 2, 4])
    b = e.choice('b', [0, 1, 2, 3, 4, 5])
    objs = seqobj.make(p)
    got, offs = ss.saveSequenceEvents(objs, [objs[a], objs[b]])
    e.check_eq(list(offs), [pos[a], pos[b]], 'positions of the notable events')
    vs, ns = ss.readSequenceEvents(d, [pos[2], pos[4], pos[a], pos[b], pos[0]])
    seqobj.same(e, vs, p)
    for n, i in zip(ns, [2, 4, a, b, 0]):
        e.check(n is vs[i], 'notable event')
    e.check(len(ns) == 5, 'number of notable events')


def missing(e):
    k = e.choice('k', ['jump', 'call', 'track'])
    o = seqobj.make([(k, 1, 1) if k == 'track' else (k, 1), ('end',)])
    e.check(e.raises(Exception, ss.saveSequenceEvents, o[:1]) is not None, 'refused')
    e.check(e.raises(Exception, ss.saveSequenceEvents, o[:1], [o[1]]) is not None, 'refused, notable')
    e.check(e.raises(Exception, ss.saveSequenceEvents, o[1:], [o[0]]) is not None, 'notable event missing')


def cutoff(e):
    p = e.choice('p', [[('note', 1, 2, False, 3)], [('if',), ('end',)], [('call', 1), ('return',)], [('jump', 1), ('rest', 5)],
                       [('track', 1, 1), ('if',)]])
    if len(p) == 2 and p[0][0] == 'call':
        p = [('call', 2), ('rest', 0), ('return',)]
        d = seqref.encode(p)[0]
        # the call comes back, the rest runs into the subroutine, which returns from the top level
        e.check(e.raises(Exception, ss.readSequenceEvents, d) is not None, 'refused')
        return
    e.check(e.raises(EOFError, ss.readSequenceEvents, seqref.encode(p)[0]) is not None, 'refused')


def veryfar(e):
    k = e.choice('k', ['jump', 'call', 'track'])
    x = seqobj.symbolic(e, 'note', 0, 1)
    raw = ('raw', e.bytes('r', 1) + bytes(0xFFFF + e.pick('n', 0, 2)))
    if k == 'jump':
        p = [('jump', 2), raw, x, ('end',)]
    elif k == 'call':
        p = [('call', 3), ('end',), raw, x, ('return',)]
    else:
        p = [('track', 3, 3), ('end',), raw, x, ('end',)]
    d = seqref.encode(p)[0]
    e.check_eq(bytes(ss.saveSequenceEvents(seqobj.make(p))[0]), d, 'saved data')
    got, _ = ss.readSequenceEvents(d)
    seqobj.same(e, got, p)


def far(e):
    n = 300
    x = seqobj.symbolic(e, 'note', 0, 1)
    p = [('if',), ('jump', n + 2)] + [('rest', 200)] * n + [x] + [('rest', 3)] * n + [('jump', n // 2)]
    objs = seqobj.make(p)
    ref, _ = seqref.encode(p)
    s = ss.SSEQ.fromEvents(objs)
    d = bytes(s.save()[0])
    e.check_eq(d, seqref.sseq(ref), 'saved')
    t = ss.SSEQ(d)
    t.parse()
    seqobj.same(e, t.events, p)
