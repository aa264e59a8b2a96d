"""Builds the library's event objects from the tuples of refs.seqref, and
reads them back."""

import ndspy.soundSequence as ss
from refs import seqref

NAMES = {0xB0: 'VariableAssignment', 0xB1: 'VariableAddition', 0xB2: 'VariableSubtraction', 0xB3: 'VariableMultiplication',
         0xB4: 'VariableDivision', 0xB5: 'VariableShift', 0xB6: 'VariableRand', 0xB7: 'VariableUnknownB7',
         0xB8: 'VariableEqual', 0xB9: 'VariableGreaterThanOrEqual', 0xBA: 'VariableGreaterThan',
         0xBB: 'VariableLessThanOrEqual', 0xBC: 'VariableLessThan', 0xBD: 'VariableNotEqual',
         0xC0: 'Pan', 0xC1: 'TrackVolume', 0xC2: 'GlobalVolume', 0xC3: 'Transpose', 0xC4: 'Portamento', 0xC5: 'PortamentoRange',
         0xC6: 'TrackPriority', 0xC7: 'MonoPoly', 0xC8: 'Tie', 0xC9: 'PortamentoFrom', 0xCA: 'VibratoDepth',
         0xCB: 'VibratoSpeed', 0xCC: 'VibratoType', 0xCD: 'VibratoRange', 0xCE: 'PortamentoOnOff', 0xCF: 'PortamentoDuration',
         0xD0: 'AttackRate', 0xD1: 'DecayRate', 0xD2: 'SustainRate', 0xD3: 'ReleaseRate', 0xD4: 'BeginLoop',
         0xD5: 'Expression', 0xD6: 'PrintVariable', 0xE0: 'VibratoDelay', 0xE1: 'Tempo', 0xE3: 'SweepPitch'}
KINDS = {'note': 'Note', 'rest': 'Rest', 'inst': 'InstrumentSwitch', 'track': 'BeginTrack', 'jump': 'Jump', 'call': 'Call',
         'random': 'Random', 'var': 'FromVariable', 'if': 'If', 'endloop': 'EndLoop', 'return': 'Return', 'end': 'EndTrack',
         'tracks': 'DefineTracks', 'raw': 'RawData'}


def cls(v):
    return getattr(ss, (KINDS[v[0]] if v[0] in KINDS else NAMES[v[1]]) + 'SequenceEvent')


def make1(v):
    """The object, without its target."""
    k, c = v[0], cls(v)
    if k == 'note':
        return c(v[1], v[2] | v[3] * 0x80, v[4])
    if k == 'track':
        return c(v[1], None)
    if k in ('jump', 'call'):
        return c(None)
    if k == 'random':
        return c(v[1], list(v[2]), v[3], v[4])
    if k == 'var':
        return c(v[1], v[2], v[3]) if v[3] is not None else c(v[1], v[2])
    if k == 'tracks':
        return c({i for i in range(16) if v[1] >> i & 1})
    if k in ('arith', 'simple', 'word'):
        return c(*v[2:])
    return c(*v[1:])


def make(events):
    objs = [make1(v) for v in events]
    for o, v in zip(objs, events):
        if v[0] == 'track':
            o.firstEvent = objs[v[2]]
        elif v[0] in ('jump', 'call'):
            o.destination = objs[v[1]]
    return objs


def params(o, v, where):
    """The parameters of object o, in the layout of v; where maps events to
    indexes."""
    k = v[0]
    if k == 'note':
        return [o.type, o.velocity, o.unknownFlag, o.duration]
    if k == 'rest':
        return [o.duration]
    if k == 'inst':
        return [o.bankID, o.instrumentID]
    if k == 'track':
        return [o.trackNumber, where(o.firstEvent)]
    if k in ('jump', 'call'):
        return [where(o.destination)]
    if k == 'random':
        return [o.subType, list(o.args), o.randMin, o.randMax]
    if k == 'var':
        return [o.subType, o.variableID, o.unknown]
    if k == 'arith':
        return [o.type, o.variableID, o.value]
    if k == 'simple':
        return [o.type, o.loopCount if v[1] == 0xD4 else o.value]
    if k == 'word':
        return [o.type, o.value]
    if k == 'tracks':
        return [sum(1 << i for i in o.trackNumbers)]
    if k == 'raw':
        return [bytes(o.data)]
    return []


def same1(e, o, v, where, what):
    e.check(type(o) is cls(v), what + ': kind of event')
    e.check_eq(params(o, v, where), list(v[1:]), what + ': parameters')


def same(e, objs, events, what='events'):
    e.check(len(objs) == len(events), what + ': number of events')

    def where(o):
        for i, x in enumerate(objs):
            if x is o:
                return i
        return None
    for i, v in enumerate(events):
        same1(e, objs[i], v, where, f'{what}, event {i}')


SIZES = [(0, 0x7F), (0x80, 0x3FFF), (0x4000, 0x1FFFFF), (0x200000, 0xFFFFFFF), (0x10000000, 0x7FFFFFFFF)]


def symbolic(e, kind, i, sub=None):
    """A free event of the given kind."""
    n = f'{kind}{i}_'
    if kind == 'note':
        lo, hi = SIZES[sub or 0]
        return ('note', e.int(n + 'p', 0, 127), e.int(n + 'v', 0, 127), e.bool(n + 'f'), e.int(n + 'd', lo, hi))
    if kind == 'rest':
        lo, hi = SIZES[sub or 0]
        return ('rest', e.int(n + 'd', lo, hi))
    if kind == 'inst':
        lo, hi = SIZES[sub or 0]
        return ('inst', e.int(n + 'b', lo >> 7, hi >> 7), e.int(n + 'i', 0, 127))
    if kind == 'random':
        a = seqref.random_args(sub)
        return ('random', sub, [e.int(n + f'a{k}', 0, 255) for k in range(a)], e.int(n + 'lo', -32768, 32767),
                e.int(n + 'hi', -32768, 32767))
    if kind == 'var':
        return ('var', sub, e.int(n + 'v', -128, 127), e.int(n + 'u', -128, 127) if sub in seqref.ARITH else None)
    if kind == 'arith':
        return ('arith', sub, e.int(n + 'v', 0, 255), e.int(n + 'x', -32768, 32767))
    if kind == 'simple':
        return ('simple', sub, e.int(n + 'v', 0, 1 if sub == 0xC7 else 2 if sub == 0xCC else 255))
    if kind == 'word':
        return ('word', sub, e.int(n + 'v', 0, 65535))
    if kind == 'tracks':
        k = e.choice(n + 'at', [0, 4, 8, 11])
        rest = e.choice(n + 'rest', [0, 0xFFFF & ~(31 << k)])
        return ('tracks', e.int(n + 'b', 0, 31) << k | rest)
    if kind == 'raw':
        return ('raw', e.bytes(n + 'd', sub))
    return (kind,)
