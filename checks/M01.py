"""M01: the music helpers keep the music as it is."""

import itertools

import ndspy.extras.music as mu
import ndspy.soundBank as sb
import ndspy.soundSequence as ss
import ndspy.soundWave as sw
import ndspy.soundWaveArchive as swar
from refs import musicref as mr

ASSUMPTIONS = [
    'lists of up to 4 (duration) and 3 (moving, looping) notes, rests, mono and poly switches and other events, all durations',
    'loops: the mono/poly mode at the start and at the end of the loop is the same',
    'whole songs: the listed shapes of tracks with free events; the last end event of a track is not the destination of a jump',
    'minification: every track chooses an instrument that exists before its first note and is not transposed; no events taken from '
    'random numbers or variables; banks of up to 3 instruments',
]
MONO, POLY = ss.MonoPolySequenceEvent.Value.MONO, ss.MonoPolySequenceEvent.Value.POLY

SONGS = {
    'one': ['nrte'],
    'one-unended': ['nr'],
    'two': ['nre', 'irne'],
    'three': ['nre', 'pnre', 'tne'],
    'looped': ['nrJ', 'inrJ'],
    'sub': ['nCrCe', 'iCne'],
    'gap': ['nre', None, None, 'tne', None, 'rne'],
    'silent': ['e'],
    'silent0': ['e', 'nre', 'tne'],
    'silent1': ['nre', 'e', 'tne'],
    'ifjump': ['nr?Je'],
    'ifjump2': ['nr?Je', 'tr?Je'],
    'ifend': ['n?ene', 'tn?ene'],
    'ifendend': ['nr?ee', 'tne'],
}


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 5 if q else 6):
        yield dict(name=f'duration{n}', fn='duration', args={'n': n}, bounds=f'every list of {n} events, both modes')
    for n in range(0, 3 if q else 4):
        for cut in (False, True):
            for app in (False, True):
                yield dict(name=f'move{n}-{cut:d}{app:d}', fn='move', args={'n': n, 'cut': cut, 'app': app},
                           bounds=f'every list of {n} events, any place and time')
    for k in itertools.product('nrp', repeat=3):
        k = ''.join(k)
        yield dict(name='move-' + k, fn='move', args={'n': 3, 'cut': True, 'app': True, 'kinds': k}, bounds=f'events {k}, any place and time')
        yield dict(name='move0-' + k, fn='move', args={'n': 3, 'cut': False, 'app': False, 'kinds': k}, bounds=f'events {k}, any place and time')
    yield dict(name='backwards', fn='backwards', bounds='every negative time; starting after the end')
    for n in range(0, 4 if q else 5):
        for k in itertools.product('nrpmt', repeat=n):
            yield dict(name='loop-' + ''.join(k), fn='loop', args={'kinds': ''.join(k)}, bounds=f'events {k}, any start and end')
    for s in SONGS:
        yield dict(name='song-' + s, fn='song', args={'s': s}, bounds=f'tracks {SONGS[s]}')
        if s != 'one-unended':
            yield dict(name='unparsed-' + s, fn='song', args={'s': s, 'unparsed': 1}, bounds=f'tracks {SONGS[s]}, not parsed yet')
        yield dict(name='collapse-' + s, fn='collapse', args={'s': s}, bounds=f'tracks {SONGS[s]}')
    yield dict(name='loopsong', fn='loopsong', bounds='both tracks of a song looped')
    for n in range(0, 4):
        yield dict(name=f'simultaneous{n}', fn='simultaneous', args={'n': n}, bounds=f'two edits of each kind of a list of {n}')
    yield dict(name='example', fn='example', bounds='the example of the documentation')
    yield dict(name='add', fn='add', bounds='all velocities and amounts')
    yield dict(name='multiply', fn='multiply', bounds='all velocities; factors 0, 1/4, 1/2, 1, 3/2, 2, 100')
    for i in range(len(INITIAL)):
        yield dict(name='initial-' + INITIAL[i][0], fn='initial', args={'i': i}, bounds='any list of 2 events before, all values')
    for b in BANKS:
        for how in ('sseq', 'sseqs', 'music', 'events') if b in ('s', 'ss') else ('music',):
            yield dict(name=f'minify-{b}-{how}', fn='minify', args={'b': b, 'how': how}, bounds=f'bank {BANKS[b]}')
        yield dict(name=f'minify-{b}-again', fn='minify', args={'b': b, 'how': 'again'}, bounds=f'bank {BANKS[b]}, minified twice')
        if not q or b in ('s', 'r', 'g', 'ss', 'gs'):
            yield dict(name=f'minify-{b}-twice', fn='minify', args={'b': b, 'how': 'music', 'twice': 1}, bounds=f'bank {BANKS[b]}, every instrument chosen twice')
        yield dict(name=f'minify-{b}-noswar', fn='minify', args={'b': b, 'how': 'music', 'noswar': 1}, bounds=f'bank {BANKS[b]}, no SWARs')
    yield dict(name='minify-nobank', fn='nobank', bounds='no SBNK')
    yield dict(name='minify-two', fn='twosongs', bounds='two songs using one bank')


def evlist(e, n, kinds=None):
    ks = kinds or [e.choice(f'k{i}', list(mr.KINDS)) for i in range(n)]
    return [mr.event(e, k, i) for i, k in enumerate(ks)]


def total(events, mono):
    t = 0
    for ev in events:
        t = t + mr.wait(ev, mono)
        mono = mr.mode(ev, mono)
    return t, mono


def duration(e, n):
    evs = evlist(e, n)
    keep = list(evs)
    e.check_eq(mu.durationOf(evs), total(evs, True)[0], 'duration')
    e.check_eq(mu.durationOf(iter(evs), MONO), total(evs, True)[0], 'duration in mono mode')
    e.check_eq(mu.durationOf(evs, POLY), total(evs, False)[0], 'duration in poly mode')
    e.check(len(evs) == n and all(a is b for a, b in zip(evs, keep)), 'the list is left alone')


def move(e, n, cut, app, kinds=None):
    evs = evlist(e, n, kinds)
    start = e.pick('start', 0, n)
    time = e.int('time', 0, 4000)
    mono = e.choice('mono', [True, False])
    before = list(evs)
    durs = [mr.wait(x, True) for x in evs]
    tl = mr.play(list(evs), 0, mono)
    whole, _ = total(evs[start:], mono)
    idx, moved, m = mu.moveInTime(evs, start, time, MONO if mono else POLY, cut=cut, append=app)
    e.check(start <= idx <= len(evs), 'place')
    t, mm = total(evs[start:idx], mono)
    e.check_eq(moved, t, 'time moved')
    e.check(moved <= time, 'at most the time asked for')
    e.check(mm == (int(m) == 1), 'mode')
    # as far as possible
    if idx < len(evs):
        nxt = mr.wait(evs[idx], mm)
        e.check(e.any([moved == time, moved + nxt > time]), 'as far as possible')
        if cut:
            e.check(e.any([moved == time, type(evs[idx]).__name__ == 'NoteSequenceEvent']), 'rests are cut')
    elif app:
        e.check_eq(moved, time, 'the end is moved')
    if not cut and not app:
        e.check(len(evs) == n, 'nothing added')
    extra = len(evs) - n
    e.check(0 <= extra <= 1, 'at most one event added')
    rest = [x for x in evs if all(x is not y for y in before)]
    e.check(len(rest) == extra and len(evs) - extra == len([x for x in evs if any(x is y for y in before)]), 'events are kept')
    e.check(all(type(x).__name__ == 'RestSequenceEvent' for x in rest), 'only rests are added')
    if not app:
        e.check_eq(total(evs[start:], mono)[0], whole, 'total time')
    # the same things happen at the same times
    now = mr.play(evs, 0, mono)
    mr.same(e, {0: tl[0][:-1]}, {0: now[0][:-1]}, 'after moving')


def backwards(e):
    evs = [mr.event(e, 'n', 0), mr.event(e, 'r', 1)]
    e.check(e.raises(ValueError, mu.moveInTime, evs, 0, e.int('t', -1000, -1)) is not None, 'moving backwards is refused')
    e.check(e.raises(ValueError, mu.moveInTime, evs, 3, e.int('u', 1, 1000)) is not None, 'starting after the end is refused')
    i, t, m = mu.moveInTime(evs, 1, 0, POLY)
    e.check(i == 1 and t == 0 and m == POLY, 'no time at all')


def loop(e, kinds):
    evs = [mr.event(e, k, i) for i, k in enumerate(kinds)]
    tr = mu.SSEQMusic.Track(evs)
    start, end = e.int('start', 0, 3000), e.int('end', 0, 4000)
    e.assume(start < end)
    tl = mr.play(list(evs))[0][:-1]
    # can the places be reached?
    t, m, bad, modes = 0, True, [], [True, True]
    for ev in evs:
        w = mr.wait(ev, m)
        if type(ev).__name__ == 'NoteSequenceEvent':
            for p in (start, end):
                bad.append(e.all([t < p, p < t + w]))
        elif type(ev).__name__ == 'MonoPolySequenceEvent':
            nm = mr.mode(ev, m)
            # (what happens at the very time is not before it, but for the start of the track)
            modes = [e.concrete(e.ite(t < p, nm, o)) for p, o in zip((start, end), modes)]
        t = t + w
        m = mr.mode(ev, m)
    e.check(tr.looped == False, 'not looped yet')
    clear = e.choice('clear', [True, False])
    x = e.raises(RuntimeError, lambda: tr.loop(start, end, clearTrailing=clear))
    e.check((x is not None) == e.any(bad), 'places inside a note are refused')
    if x is not None:
        return
    e.check(tr.looped, 'looped')
    e.check(e.raises(RuntimeError, tr.loop, 0, 1) is not None, 'looping again is refused')
    j = [i for i, v in enumerate(tr.events) if type(v).__name__ == 'JumpSequenceEvent']
    e.check(len(j) == 1, 'one jump')
    if clear:
        e.check(j[0] == len(tr.events) - 1, 'nothing after the jump')
    e.assume(modes[0] == modes[1])
    # expected: everything before the end once, then everything between start and end again and again
    first = [(t, p) for t, p in tl if e.concrete(t < end)]
    again = [(t, p) for t, p in first if e.concrete(t >= start)]
    want = list(first)
    for k in (1, 2):
        want += [(t + k * (end - start), p) for t, p in again]
    got = mr.play(tr.events, steps=60)[0][:-1][:len(want)]
    mr.same(e, {0: want}, {0: got}, 'looped track')
    jt = mr.at(tr.events, tr.events[j[0]].destination)
    e.check_eq(total(tr.events[:jt], True)[0], start, 'start of the loop')
    e.check_eq(total(tr.events[:j[0]], True)[0], end, 'end of the loop')


def mksong(e, s):
    """Events of a song."""
    spec = SONGS[s]
    bodies, sub = {}, None
    if any(t and 'C' in t for t in spec):
        sub = [mr.event(e, 'n', 'sub'), mr.event(e, 'r', 'subr'), ss.ReturnSequenceEvent()]
    for num, t in enumerate(spec):
        if t is None:
            continue
        body = []
        for i, k in enumerate(t):
            if k == 'J':
                body.append(ss.JumpSequenceEvent(body[0]))
            elif k == 'C':
                body.append(ss.CallSequenceEvent(sub[0]))
            else:
                body.append(mr.event(e, k, f'{num}_{i}'))
        bodies[num] = body
    if len(bodies) == 1:
        evs = bodies[0]
    else:
        evs = [ss.DefineTracksSequenceEvent(set(bodies))]
        evs += [ss.BeginTrackSequenceEvent(n, bodies[n][0]) for n in sorted(bodies) if n]
        for n in sorted(bodies):
            evs += bodies[n]
    return evs + (sub or []), sorted(bodies)


def length(s):
    return 9 if s == 'looped' or 'jump' in s else 18


def open_(e, s, unparsed=0, met=True):
    evs, nums = mksong(e, s)
    tl = mr.play(evs, steps=length(s), met=met)
    sseq = ss.SSEQ.fromEvents(evs, 1, 2, 3, 4, 5, 6)
    if unparsed:
        sseq = ss.SSEQ(bytes(sseq.save()[0]), 1, 2, 3, 4, 5, 6)
    return sseq, tl, nums


def finished(tl):
    """Tracks that ran off the end of the file get an end event."""
    return {k: v[:-1] + [(v[-1][0], ['over', 'end' if v[-1][1][1] == 'fell off' else v[-1][1][1]])] for k, v in tl.items()}


def song(e, s, unparsed=0):
    met = e.choice('met', [True, False]) if '?' in SONGS[s][0] else True
    sseq, tl, nums = open_(e, s, unparsed, met)
    m = mu.SSEQMusic(sseq)
    steps = length(s)
    e.check(sorted(m.tracks) == nums, 'tracks')
    a, b, c = m.save()
    e.check(a is sseq and b is None and c is None, 'what save returns')
    mr.same(e, finished(tl), mr.play(sseq.events, steps=steps, met=met), 'song')
    d = bytes(sseq.save()[0])
    back = ss.SSEQ(d)
    back.parse()
    mr.same(e, finished(tl), mr.play(back.events, steps=steps, met=met), 'song saved and loaded')
    e.check_eq([sseq.unk02, sseq.bankID, sseq.volume, sseq.channelPressure, sseq.polyphonicPressure, sseq.playerID], [1, 2, 3, 4, 5, 6],
               'parameters')


def collapse(e, s):
    sseq, tl, nums = open_(e, s)
    m = mu.SSEQMusic(sseq, None, [])
    old = {n: m.tracks[n] for n in nums}
    m.collapseTrackIDs()
    e.check(sorted(m.tracks) == list(range(len(nums))), 'track numbers')
    for i, n in enumerate(nums):
        e.check(m.tracks[i] is old[n], 'order of the tracks')
    m.save()
    mr.same(e, {i: finished(tl)[n] for i, n in enumerate(nums)}, mr.play(sseq.events, steps=length(s)), 'song')


def loopsong(e):
    sseq, tl, nums = open_(e, 'two')
    m = mu.SSEQMusic(sseq)
    start, end = e.int('start', 0, 3000), e.int('end', 0, 4000)
    e.assume(start < end)
    x = e.raises(RuntimeError, m.loop, start, end)
    if x is not None:
        e.skip()
    m.save()
    now = mr.play(sseq.events)
    for n in nums:
        want = [(t, p) for t, p in tl[n][:-1] if e.concrete(t < end)]
        want += [(t + end - start, p) for t, p in want if e.concrete(t >= start)]
        mr.same(e, {n: want}, {n: now[n][:-1][:len(want)]}, 'looped song')


def simultaneous(e, n):
    old = [('o', i) for i in range(n)]
    evs = list(old)
    ins = [(e.pick(f'at{i}', 0, n), ('new', i)) for i in range(2)]
    dele = e.pick('del', -1, n - 1)
    rep = e.pick('rep', -1, n - 1)
    with mu.SimultaneousEventsModifier(evs) as mod:
        for at, x in ins:
            mod.insert(at, x)
        if dele >= 0:
            del mod[dele]
        if rep >= 0:
            mod[rep] = ('r',)
        e.check(evs == old, 'nothing happens before the end')
        e.check(list(mod) == old, 'the old list is seen')
    want = []
    for i in range(n + 1):
        want += [x for at, x in ins if at == i]
        if i < n:
            if i == rep:
                want.append(('r',))
            elif i != dele:
                want.append(old[i])
    e.check(evs == want, 'list afterwards')


def example(e):
    x = e.int('x', 0, 9)
    evs = ['a', 'b', 'c']
    with mu.SimultaneousEventsModifier(evs) as m:
        m.insert(1, 'd')
        m.insert(1, 'e')
        m.insert(1, 'f')
        m.insert(2, x)
    e.check(evs[:5] == ['a', 'd', 'e', 'f', 'b'] and len(evs) == 7 and evs[6] == 'c', 'list')
    e.check_eq(evs[5], x, 'new item')


def tracknotes(e):
    evs = [mr.event(e, 'n', 0), mr.event(e, 'r', 1), mr.event(e, 'n', 2)]
    return mu.SSEQMusic.Track(evs), [evs[0].velocity, evs[2].velocity], evs


def clampcheck(e, tr, old, evs, want, fn, clamp):
    ok = e.all([e.all([0 <= w, w <= 127]) for w in want])
    if clamp:
        fn()
        for w, i in zip(want, (0, 2)):
            e.check_eq(evs[i].velocity, e.ite(w < 0, 0, e.ite(w > 127, 127, w)), 'velocity')
    else:
        x = e.raises(ValueError, fn)
        e.check((x is None) == ok, 'velocities out of range are refused')
        if x is None:
            for w, i in zip(want, (0, 2)):
                e.check_eq(evs[i].velocity, w, 'velocity')
    e.check(len(tr.events) == 3 and all(a is b for a, b in zip(tr.events, evs)), 'events')


def add(e):
    tr, old, evs = tracknotes(e)
    n = e.int('amount', -300, 300)
    clamp = e.choice('clamp', [True, False])
    keep = (evs[0].type, evs[0].duration, evs[1].duration)
    clampcheck(e, tr, old, evs, [v + n for v in old], lambda: tr.addToNoteVelocities(n, clamp=clamp), clamp)
    e.check_eq(evs[0].type, keep[0], 'pitch')
    e.check_eq(evs[0].duration, keep[1], 'duration')
    e.check_eq(evs[1].duration, keep[2], 'rest')


def multiply(e):
    tr, old, evs = tracknotes(e)
    f, num, den = e.choice('factor', [(0, 0, 1), (0.25, 1, 4), (0.5, 1, 2), (1, 1, 1), (1.5, 3, 2), (2, 2, 1), (100, 100, 1)])
    clamp = e.choice('clamp', [True, False])
    if isinstance(f, float):
        for i in (0, 2):
            evs[i].velocity = e.concrete(evs[i].velocity) if i == 0 else 64
        old = [evs[0].velocity, 64]
    clampcheck(e, tr, old, evs, [v * num // den for v in old], lambda: tr.multiplyNoteVelocitiesBy(f, clamp=clamp), clamp)


INITIAL = [('initialPan', 'PanSequenceEvent'), ('initialVolume', 'TrackVolumeSequenceEvent'), ('initialTranspose', 'TransposeSequenceEvent'),
           ('initialPriority', 'TrackPrioritySequenceEvent'), ('initialMonoPoly', 'MonoPolySequenceEvent'),
           ('initialAttackRate', 'AttackRateSequenceEvent'), ('initialDecayRate', 'DecayRateSequenceEvent'),
           ('initialSustainRate', 'SustainRateSequenceEvent'), ('initialReleaseRate', 'ReleaseRateSequenceEvent'),
           ('initialTempo', 'TempoSequenceEvent'), ('initialInstrument', 'InstrumentSwitchSequenceEvent')]


def initial(e, i):
    attr, cls = INITIAL[i]
    inst = attr == 'initialInstrument'
    c = getattr(ss, cls)

    def val(n):
        if inst:
            return (e.int(f'bank{n}', 0, 127), e.int(f'inst{n}', 0, 127))
        return e.int(f'val{n}', 0, 1 if attr == 'initialMonoPoly' else 127)

    def mk(n):
        v = val(n)
        return (c(*v) if inst else c(v)), v
    other = ss.ExpressionSequenceEvent
    evs, vals, found = [], [], None
    blocked = False
    for n in range(2):
        k = e.choice(f'k{n}', ['this', 'note', 'rest', 'other'])
        if k == 'this':
            ev, v = mk(n)
            if found is None and not blocked:
                found = (ev, v)
        elif k == 'other':
            ev = other(e.int(f'o{n}', 0, 127))
        else:
            ev = mr.event(e, k[0], n)
            blocked = True
        evs.append(ev)
    tr = mu.SSEQMusic.Track(evs)
    got = getattr(tr, attr)

    def is_(got, v, what):
        if inst:
            e.check(got is not None and len(got) == 2, what)
            e.check_eq(got[0], v[0], what)
            e.check_eq(got[1], v[1], what)
        else:
            e.check_eq(got, v, what)
    if found is None:
        e.check(got is None, 'no initial value')
    else:
        is_(got, found[1], 'initial value')
    if e.choice('remove', [True, False]):
        setattr(tr, attr, None)
        want = [x for x in evs if found is None or x is not found[0]]
        e.check(len(tr.events) == len(want) and all(a is b for a, b in zip(tr.events, want)), 'events after removal')
    else:
        v = val('new')
        setattr(tr, attr, v)
        is_(getattr(tr, attr), v, 'value after setting')
        if found is not None:
            want = evs
            rest = tr.events
        else:
            want = evs
            rest = tr.events[1:]
            e.check(type(tr.events[0]).__name__ == cls, 'new event')
        e.check(len(rest) == len(want) and all(a is b for a, b in zip(rest, want)), 'events after setting')


# ------------------------------------------------------------- minification

# s: one note, p: square wave, z: noise, g: regions, r: range; number: its definitions
BANKS = {'s': 's', 'ss': 'ss', 'sp': 'sp', 'pz': 'pz', 'r': 'r3', 'g': 'g3', 'sr': 'sr2', 'gs': 'g2s', 'rg': 'r2g2', 'gp': 'g2p', '-s': '-s'}
PITCH = [0, 40, 41, 60, 61, 62, 127]


def definition(e, k, kind=1):
    # (the first two definitions of an instrument take all waves)
    if kind != 1:
        wave = e.pick('w' + k, 0, 6), 0
    elif k[1:] < '2':
        wave = e.choice('w' + k, [(0, 0), (2, 0), (1, 1), (2, 1)])
    else:
        wave = 1, 0
    return sb.NoteDefinition(*wave, e.int('pitch' + k, 0, 127), e.int('att' + k, 0, 127), 1, 2, 3, 64, kind)


def bank(e, b):
    out = []
    s, i = BANKS[b], 0
    while i < len(s):
        k = s[i]
        i += 1
        n = 0
        if i < len(s) and s[i].isdigit():
            n = int(s[i])
            i += 1
        key = str(len(out))
        if k == '-':
            out.append(None)
        elif k == 's':
            out.append(sb.SingleNoteInstrument(definition(e, key)))
        elif k == 'p':
            out.append(sb.SingleNoteInstrument(definition(e, key, 2)))
        elif k == 'z':
            out.append(sb.SingleNoteInstrument(definition(e, key, 3)))
        elif k == 'r':
            out.append(sb.RangeInstrument(60, [definition(e, key + str(j)) for j in range(n)]))
        elif k == 'g':
            ends = [40, 61][:n - 1] + [127]
            out.append(sb.RegionalInstrument([sb.RegionalInstrument.Region(ends[j], definition(e, key + str(j), 2 if b == 'gp' and j == 0 else 1))
                                              for j in range(n)]))
    return out


def resolve(inst, p):
    """Definition an instrument has for a pitch."""
    n = type(inst).__name__
    if inst is None:
        return None
    if n == 'SingleNoteInstrument':
        return inst.noteDefinition
    if n == 'RangeInstrument':
        i = p - inst.firstPitch
        return inst.noteDefinitions[i] if 0 <= i < len(inst.noteDefinitions) else None
    for r in inst.regions:
        if p <= r.lastPitch:
            return r.noteDefinition
    return None


def sound(d, waves):
    """What a definition sounds like."""
    if d is None:
        return ['silent']
    w = ['wave', None if waves is None else waves[d.waveArchiveIDID].waves[d.waveID].data] if int(d.type) == 1 else ['synth', d.waveID]
    if int(d.type) == 1 and waves is None:
        w = ['number', d.waveArchiveIDID, d.waveID]
    return w + [int(d.type), d.pitch, d.attack, d.decay, d.sustain, d.release, d.pan]


def heard(events, sbnk, waves):
    """What is heard of a list of events that begins with a switch."""
    cur, out = None, []
    for ev in events:
        n = type(ev).__name__
        if n == 'InstrumentSwitchSequenceEvent':
            cur = ev.instrumentID
        elif n == 'NoteSequenceEvent':
            inst = sbnk.instruments[cur] if cur < len(sbnk.instruments) else None
            out.append([ev.type, ev.velocity, ev.duration] + sound(resolve(inst, ev.type), waves))
    return out


def mkwaves(e):
    out = []
    for a in range(2):
        s = swar.SWAR()
        for w in range(3):
            x = sw.SWAV()
            x.data = bytes([a, w]) + e.bytes(f'wave{a}{w}', 1)
            s.waves.append(x)
        out.append(s)
    return out


def setup(e, b, twice=0):
    bk = sb.SBNK.fromInstruments(bank(e, b))
    n = len(bk.instruments)
    if twice:
        # every instrument is chosen again later, for another note
        evs = []
        for k in range(2):
            for i in range(n):
                if bk.instruments[i] is not None:
                    evs.append(ss.InstrumentSwitchSequenceEvent(0, i))
                    evs.append(ss.NoteSequenceEvent(e.choice(f'p{i}{k}', PITCH if n == 1 else PITCH[1:4]), e.int(f'v{i}{k}', 0, 127), 5))
        return bk, mkwaves(e), evs
    order = e.choice('order', [list(range(n)), list(reversed(range(n)))] + ([[n - 1]] if n > 1 else []))
    evs = []
    for i in order:
        if bk.instruments[i] is None:
            continue
        evs.append(ss.InstrumentSwitchSequenceEvent(0, i))
        for j in range(2 if n == 1 else 1):
            evs.append(ss.NoteSequenceEvent(e.choice(f'p{i}{j}', PITCH if n == 1 else PITCH[1:5]), e.int(f'v{i}{j}', 0, 127), 5))
    return bk, mkwaves(e), evs


def minify(e, b, how, noswar=0, twice=0):
    bk, waves, evs = setup(e, b, twice)
    if noswar:
        waves = None
    evs.append(ss.EndTrackSequenceEvent())
    sseq = ss.SSEQ.fromEvents(evs)
    old = heard(evs, bk, waves)
    used = sorted({x.instrumentID for x in evs if type(x).__name__ == 'InstrumentSwitchSequenceEvent'})
    if how == 'sseq':
        mu.minifyBySseq(sseq, bk, waves)
    elif how == 'sseqs':
        mu.minifyBySseqs([sseq], bk, waves)
    elif how == 'events':
        mu.minifyByEvents(iter(evs), bk, waves)
    else:
        m = mu.SSEQMusic(sseq, bk, waves)
        m.minify()
        if how == 'again':
            m.minify()
        m.save()
    new = heard(sseq.events, bk, waves)
    e.check(len(old) == len(new), 'notes')
    for x, y in zip(old, new):
        e.check(len(x) == len(y) and x[3] == y[3], 'kind of note')
        for p, q in zip(x, y):
            e.check_eq(p, q, 'note')
    e.check(len(bk.instruments) == len(used), 'instruments that are used')
    if waves is not None:
        e.check(sum(len(s.waves) for s in waves) <= 6, 'no waves are added')
    bk.save()


def nobank(e):
    sseq, tl, nums = open_(e, 'two')
    m = mu.SSEQMusic(sseq, None, None)
    m.minify()
    m.save()
    mr.same(e, finished(tl), mr.play(sseq.events), 'song')


def twosongs(e):
    bk, waves, evs = setup(e, 'ss')
    other = [ss.InstrumentSwitchSequenceEvent(0, e.pick('other', 0, 1)), ss.NoteSequenceEvent(60, 100, 5)]
    songs = [ss.SSEQ.fromEvents(x + [ss.EndTrackSequenceEvent()]) for x in (evs, other)]
    old = [heard(s.events, bk, waves) for s in songs]
    mu.minifyBySseqs(songs, bk, waves)
    for s, o in zip(songs, old):
        for x, y in zip(o, heard(s.events, bk, waves)):
            for p, q in zip(x, y):
                e.check_eq(p, q, 'note')
