"""An independent player of sequence event objects: which notes sound when."""

import ndspy.soundSequence as ss

KINDS = 'nrmpt'          # note, rest, mono, poly, tempo


def event(e, kind, i, top=1000):
    if kind == 'n':
        return ss.NoteSequenceEvent(e.int(f'pitch{i}', 0, 127), e.int(f'vel{i}', 0, 127), e.int(f'd{i}', 0, top))
    if kind == 'r':
        return ss.RestSequenceEvent(e.int(f'd{i}', 0, top))
    if kind == 'm':
        return ss.MonoPolySequenceEvent(1)
    if kind == 'p':
        return ss.MonoPolySequenceEvent(0)
    if kind == 't':
        return ss.TempoSequenceEvent(e.int(f'tempo{i}', 0, 65535))
    if kind == 'i':
        return ss.InstrumentSwitchSequenceEvent(0, e.int(f'inst{i}', 0, 127))
    if kind == 'e':
        return ss.EndTrackSequenceEvent()
    if kind == '?':
        return ss.IfSequenceEvent()
    raise ValueError(kind)


def wait(ev, mono):
    """Time an event takes."""
    n = type(ev).__name__
    if n == 'RestSequenceEvent' or n == 'NoteSequenceEvent' and mono:
        return ev.duration
    return 0


def mode(ev, mono):
    return int(ev.value) == 1 if type(ev).__name__ == 'MonoPolySequenceEvent' else mono


def picture(ev):
    n = type(ev).__name__
    if n == 'NoteSequenceEvent':
        return ['note', ev.type, ev.velocity, ev.duration]
    if n == 'RestSequenceEvent':
        return None
    if n == 'InstrumentSwitchSequenceEvent':
        return ['instrument', ev.bankID, ev.instrumentID]
    if n in ('EndTrackSequenceEvent', 'JumpSequenceEvent', 'CallSequenceEvent', 'ReturnSequenceEvent', 'BeginTrackSequenceEvent',
             'DefineTracksSequenceEvent', 'IfSequenceEvent'):
        return None
    return [n, ev.value]


def at(events, target):
    for i, x in enumerate(events):
        if x is target:
            return i
    raise ValueError('not in the list')


def play(events, start=0, mono=True, steps=18, track=0, met=True):
    """What happens when, by track: {number: [(time, what)]}, and whether each
    track came to its end. Conditions are met or not, as asked for."""
    out, ended, todo = {}, {}, [(track, start)]
    while todo:
        num, i = todo.pop(0)
        t, m, stack, log, fin = 0, mono, [], [], False
        for _ in range(steps):
            if i >= len(events):
                fin = 'fell off'
                break
            ev = events[i]
            n = type(ev).__name__
            i += 1
            p = picture(ev)
            if p is not None:
                log.append((t, p))
            t = t + wait(ev, m)
            m = mode(ev, m)
            if n == 'IfSequenceEvent' and not met:
                i += 1
            if n == 'EndTrackSequenceEvent':
                fin = 'end'
                break
            if n == 'JumpSequenceEvent':
                i = at(events, ev.destination)
            elif n == 'CallSequenceEvent':
                stack.append(i)
                i = at(events, ev.destination)
            elif n == 'ReturnSequenceEvent':
                i = stack.pop()
            elif n == 'BeginTrackSequenceEvent':
                todo.append((ev.trackNumber, at(events, ev.firstEvent)))
        out[num] = log + [(t, ['over', fin])]
    return out


def heard(tl):
    """The tracks in which anything happens."""
    return {k: v for k, v in tl.items() if len(v) > 1}


def same(e, a, b, what):
    """The same things happen at the same times."""
    a, b = heard(a), heard(b)
    e.check(sorted(a) == sorted(b), what + ': tracks')
    for k in a:
        e.check(len(a[k]) == len(b[k]), f'{what}: number of things that happen')
        for (t, p), (u, q) in zip(a[k], b[k]):
            e.check_eq(t, u, what + ': time of ' + str(p[0]))
            e.check(p[0] == q[0], what + ': what happens')
            for x, y in zip(p[1:], q[1:]):
                e.check_eq(x, y, what + ': ' + str(p[0]))
