"""Q01: sequence events encode and decode consistently."""

import ndspy.soundSequence as ss
from refs import seqref, seqobj

ASSUMPTIONS = ['parameters in their documented ranges: pitches, velocities and instruments 0-127, durations and '
               'instrument numbers of up to 5 bytes, variables of from-variable events in one byte, mono/poly 0-1, '
               'vibrato type 0-2',
               'random events: the bytes before the random range are the arguments but the last (sub-events with at '
               'least one argument; control flow sub-events left out)']
RANDOM = [0x3C, 0x80, 0x81] + seqref.ARITH + seqref.SIMPLE + seqref.WORD


def specs(q):
    for k in ('note', 'rest', 'inst'):
        for s in range(5):
            yield k, s
    for s in seqref.ARITH:
        yield 'arith', s
    for s in seqref.SIMPLE:
        yield 'simple', s
    for s in seqref.WORD:
        yield 'word', s
    for s in RANDOM if not q else RANDOM[:6] + RANDOM[16:20] + RANDOM[24:28] + RANDOM[-3:]:
        yield 'random', s
    for s in [0, 0x3C] + RANDOM[1:] if not q else [0, 0x80, 0xAF, 0xB0, 0xB5, 0xBD, 0xBE, 0xC1, 0xE1]:
        yield 'var', s
    yield 'tracks', None
    for k in seqref.PLAIN:
        yield k, None


def cases(tier):
    q = tier == 'quick'
    for k, s in specs(q):
        t = k if s is None else f'{k}{s:02X}' if s > 9 else f'{k}{s}'
        yield dict(name=t, fn='one', args={'k': k, 's': s}, bounds=f'every {t} event' if k != 'tracks' else 'track sets: five free neighbouring tracks, all others or none')
        if k not in ('end', 'return', 'if'):
            yield dict(name=t + '-between', fn='between', args={'k': k, 's': s}, bounds=f'every {t} event between two others')
    for k in ('jump', 'call', 'track'):
        yield dict(name=k, fn='target', args={'k': k}, bounds=f'{k} to every position of 24 bits')
    yield dict(name='raw', fn='raw', bounds='raw data of 0 to 6 bytes')
    yield dict(name='ranges', fn='ranges', bounds='note pitches and velocities out of range')
    yield dict(name='edit', fn='edit', bounds='events whose parameters are changed')
    yield dict(name='negative', fn='negative', bounds='negative durations')
    yield dict(name='unknown', fn='unknown', bounds='every undefined event type')
    yield dict(name='vlv', fn='vlv', bounds='every encoding of 1 to 5 bytes without leading zeros; longer ones')
    yield dict(name='truncated', fn='truncated', bounds='events cut off at the end of the data')


def one(e, k, s):
    v = seqobj.symbolic(e, k, 0, s)
    o = seqobj.make1(v)
    d = o.save({})
    ref = seqref.encode1(v, [0])
    e.check(len(d) == o.dataLength, 'the event takes as many bytes as it reports')
    e.check_eq(bytes(d), ref, 'encoding')
    e.check_eq(o.type, ref[0], 'type')
    if k not in seqref.PLAIN:
        x = seqobj.cls(v).fromData(ref[0], b'\x01\x02\x03' + ref + b'\xff', 3)
        seqobj.same1(e, x, v, None, 'decoded at an offset')
        e.check(x.dataLength == len(ref), 'length after decoding')
    if k == 'return':
        return
    tail = [] if k == 'end' else [('end',), ('end',)] if k == 'if' else [('end',)]
    got, _ = ss.readSequenceEvents(ref + seqref.encode(tail)[0])
    seqobj.same(e, got, [v] + tail, 'decoded')


def between(e, k, s):
    vs = [('rest', e.int('first', 0, 127)), seqobj.symbolic(e, k, 0, s), ('note', e.int('pitch', 0, 127), 1, False, 300), ('end',)]
    d, _ = ss.saveSequenceEvents(seqobj.make(vs))
    ref, _ = seqref.encode(vs)
    e.check_eq(bytes(d), ref, 'encoding')
    got, _ = ss.readSequenceEvents(bytes(d))
    seqobj.same(e, got, vs, 'decoded')


def target(e, k):
    x = ss.EndTrackSequenceEvent()
    pos = e.int('pos', 0, 0xFFFFFF)
    if k == 'track':
        n = e.int('n', 0, 255)
        o = ss.BeginTrackSequenceEvent(n, x)
        v = ('track', n, 0)
    else:
        o = seqobj.cls((k,))(x)
        v = (k, 0)
    d = o.save({x: pos})
    e.check(len(d) == o.dataLength, 'length')
    e.check_eq(bytes(d), seqref.encode1(v, [pos]), 'encoding')


def raw(e):
    n = e.pick('n', 0, 6)
    b = e.bytes('b', n)
    o = ss.RawDataSequenceEvent(b)
    e.check(o.dataLength == n, 'length')
    e.check_eq(o.save(), b, 'encoding')
    vs = [('end',), ('raw', b)] if n else [('end',)]
    got, _ = ss.readSequenceEvents(b'\xff' + b)
    seqobj.same(e, got, vs, 'decoded')


def ranges(e):
    p, v = e.int('p', -1, 300), e.int('v', 0, 300)
    o = ss.NoteSequenceEvent(0, 0, 5)
    o.pitch = p
    o.velocity = v
    bad = e.any([p < 0, p > 127, v > 127])
    x = e.raises(ValueError, o.save)
    e.check_eq(bad, x is not None, 'refused exactly when out of range')
    e.check_eq(o.type, p, 'the pitch is the type')


def edit(e):
    v = seqobj.symbolic(e, 'note', 0, 0)
    o = seqobj.make1(v)
    e.check(o.dataLength == 3, 'length before')
    w = seqobj.symbolic(e, 'note', 1, 2)
    o.pitch, o.velocity, o.unknownFlag, o.duration = w[1:]
    e.check(o.dataLength == 5, 'length after')
    e.check_eq(o.save(), seqref.encode1(w, []), 'encoding')
    r = ss.RestSequenceEvent(0)
    r.duration = w[4]
    e.check(r.dataLength == 4, 'length of the rest')
    e.check_eq(r.save(), seqref.encode1(('rest', w[4]), []), 'encoding of the rest')
    i = ss.InstrumentSwitchSequenceEvent(0, 0)
    i.bankID, i.instrumentID = e.int('bank', 1, 127), w[1]
    e.check(i.dataLength == 3, 'length of the instrument switch')
    e.check_eq(i.save(), seqref.encode1(('inst', i.bankID, w[1]), []), 'encoding of the instrument switch')
    t = ss.DefineTracksSequenceEvent(set())
    t.trackNumbers.add(3)
    t.trackNumbers |= {15, 0}
    e.check(t.save() == b'\xfe\x09\x80', 'encoding of the track list')


def negative(e):
    n = e.int('n', -(1 << 40), -1)
    for o in (ss.RestSequenceEvent(n), ss.NoteSequenceEvent(1, 2, n)):
        e.check(e.raises(ValueError, o.save) is not None, 'refused')
        e.check(e.raises(ValueError, lambda: o.dataLength) is not None, 'no length')


def unknown(e):
    known = [0x80, 0x81, 0x93, 0x94, 0x95, 0xA0, 0xA1, 0xA2, 0xFC, 0xFD, 0xFE, 0xFF] + seqref.ARITH + seqref.SIMPLE + seqref.WORD
    t = e.choice('t', [x for x in range(0x80, 0x100) if x not in known])
    d = bytes([t]) + e.bytes('d', 4) + b'\xff'
    e.check(e.raises(ValueError, ss.readSequenceEvents, d) is not None, 'refused')


def vlv(e):
    n = e.pick('n', 1, 7)
    b = e.bytes('b', n)
    for i in range(n - 1):
        e.assume(b[i] >= 0x80)
    e.assume(b[0] != 0x80)
    e.assume(b[n - 1] < 0x80)
    x = e.raises(ValueError, ss.readSequenceEvents, b'\x80' + b + b'\xff')
    e.check((x is not None) == (n > 5), 'at most five bytes')
    if n <= 5:
        val = 0
        for i in range(n):
            val = val << 7 | b[i] & 0x7F
        seqobj.same(e, e.result[0], [('rest', val), ('end',)], 'decoded')
        e.check_eq(ss.saveSequenceEvents(e.result[0])[0], b'\x80' + b + b'\xff', 'saved again')


def truncated(e):
    k, s = e.choice('k', [('note', 1), ('rest', 1), ('inst', 1), ('arith', 0xB4), ('simple', 0xC1), ('word', 0xE1),
                          ('random', 0xC1), ('tracks', None), ('var', 0xC1), ('var', 0xB1)])
    v = seqobj.symbolic(e, k, 0, s)
    d = seqref.encode1(v, [])
    n = e.pick('cut', 1, len(d) - 1)
    x = e.raises(EOFError, ss.readSequenceEvents, d[:n])
    e.check(x is not None, 'refused')
