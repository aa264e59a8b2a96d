"""I01: sound banks survive saving and loading."""

import ndspy.soundBank as sb
from refs import sndref

ASSUMPTIONS = ['regional instruments have 1 to 8 regions and only the first may end at pitch 0; range instruments end '
               'at pitch 255 or below',
               'up to 4 instruments (quick) or 6 (thorough) with free parameters']
# single (s), range (rN), regional (gN), empty (-)
SHAPES = [[], ['-'], ['s'], ['r0'], ['r1'], ['r2'], ['g1'], ['g2'], ['g8'], ['s', 's'], ['-', 's', '-'], ['g2', 'r2', 's'],
          ['r1', 's', '-', 'g1'], ['s', 'r2', 'r1', 's'], ['g1', 'g3', 's', 'g2'], ['-', '-', 'g2', 'r1', '-'], ['r2', 'r0', 's']]
MORE = [['g%d' % n] for n in range(3, 8)] + [['r5'], ['r3', 'g4', 's', 's', 'r1', 'g1'], ['s'] * 6, ['g1', 's'] * 3]


def cases(tier):
    q = tier == 'quick'
    for shape in SHAPES + ([] if q else MORE):
        s = ''.join(shape) or 'none'
        yield dict(name=f'new-{s}', fn='new', args={'shape': shape}, bounds=f'new instruments {shape}')
        yield dict(name=f'load-{s}', fn='load', args={'shape': shape}, bounds=f'independently built bank {shape}')
    for shape in (['s', 's'], ['r1', 'r1'], ['g1', 'g1'], ['s', 's', 's'], ['r2', 's', 'r2']):
        yield dict(name='equal-' + ''.join(shape), fn='equal', args={'shape': shape}, bounds=f'equal instruments among {shape}')
    for shape in (['s', 's'], ['s', '-', 's'], ['r2', 'r2'], ['s', 'g2', 'g2', 's']):
        yield dict(name='shared-' + ''.join(shape), fn='shared', args={'shape': shape}, bounds=f'file with shared data, {shape}')
    yield dict(name='types', fn='types', bounds='every note type and single-note instrument type')
    yield dict(name='big', fn='big', bounds='a range instrument of 128 notes next to others')
    yield dict(name='bigbank', fn='bigbank', bounds='30 range instruments of 128 notes, behind them others')
    yield dict(name='links', fn='links', bounds='wave archive links with gaps')
    yield dict(name='regions', fn='regions', bounds='0 to 10 regions')
    yield dict(name='edit', fn='edit', bounds='a loaded bank after edits')
    yield dict(name='keys', fn='keys', bounds='every order given by bankOrderKey, every merge ID')
    yield dict(name='hidden', fn='hidden', bounds='unreachable instruments between and after the others')
    yield dict(name='defaults', fn='defaults', bounds='new objects')


def note(e, n):
    return [e.int(f'{n}w', 0, 65535), e.int(f'{n}v', 0, 65535)] + [e.int(f'{n}{k}', 0, 255) for k in 'padsrx']


def inst(e, i, kind, types=False):
    if kind == '-':
        return None
    t = lambda n: e.choice(n, [1, 2, 3]) if types else 1 + i % 3
    if kind == 's':
        return ['single', t(f'{i}t'), note(e, f'{i}n')]
    n = int(kind[1:])
    if kind[0] == 'r':
        return ['range', e.int(f'{i}f', 0 if n else 1, min(255, 256 - n)), [[t(f'{i}t{k}'), note(e, f'{i}n{k}')] for k in range(n)]]
    return ['regional', [[e.int(f'{i}l{k}', 1 if k else 0, 255), t(f'{i}t{k}'), note(e, f'{i}n{k}')] for k in range(n)]]


def build(i):
    if i is None:
        return None
    if i[0] == 'single':
        return sb.SingleNoteInstrument(sb.NoteDefinition(*i[2], i[1]))
    if i[0] == 'range':
        return sb.RangeInstrument(i[1], [sb.NoteDefinition(*n, t) for t, n in i[2]])
    return sb.RegionalInstrument([sb.RegionalInstrument.Region(l, sb.NoteDefinition(*n, t)) for l, t, n in i[1]])


def fields(n):
    return [n.waveID, n.waveArchiveIDID, n.pitch, n.attack, n.decay, n.sustain, n.release, n.pan]


def view(i):
    if i is None:
        return None
    if isinstance(i, sb.SingleNoteInstrument):
        return ['single', i.type, fields(i.noteDefinition)]
    if isinstance(i, sb.RangeInstrument):
        return ['range', i.firstPitch, [[n.type, fields(n)] for n in i.noteDefinitions]]
    return ['regional', [[r.lastPitch, r.noteDefinition.type, fields(r.noteDefinition)] for r in i.regions]]


def same(e, bank, want, what):
    e.check(len(bank.instruments) == len(want), what + ': number of instruments')
    for k, w in enumerate(want):
        i = bank.instruments[k]
        e.check((i is None) == (w is None), what + f': instrument {k} is empty')
        if w is not None:
            v = view(i)
            e.check(v[0] == w[0], what + f': kind of instrument {k}')
            e.check_eq(i.type, sndref.inst_type(w), what + f': type of instrument {k}')
            e.check_eq(v, w, what + f': instrument {k}')


def roundtrip(e, bank, want, what='saved'):
    d, unk, ids = bank.save()
    d = bytes(d)
    e.check_eq(sndref.read_sbnk(e, d), want, what + ': an independent reader finds the instruments')
    b = sb.SBNK(d, unk, ids)
    same(e, b, want, what)
    e.check(b.inaccessibleInstruments == {} or bank.inaccessibleInstruments != {}, what + ': no other instruments appear')
    e.check_eq(bytes(b.save()[0]), d, what + ': saved again')
    same(e, bank, want, what + ', the original')
    return b


def new(e, shape):
    want = [inst(e, i, k) for i, k in enumerate(shape)]
    unk = e.int('unk', 0, 65535)
    bank = sb.SBNK.fromInstruments([build(i) for i in want], unk, [3, None, 5])
    b = roundtrip(e, bank, want)
    e.check_eq(b.unk02, unk, 'unk02')
    e.check(b.waveArchiveIDs == [3, None, 5], 'wave archive links')


def load(e, shape):
    want = [inst(e, i, k) for i, k in enumerate(shape)]
    n = len(want)
    order = e.choice('order', [list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda k: sndref.inst_type(want[k]))])
    d = sndref.sbnk(want, order)
    b = sb.SBNK(d)
    same(e, b, want, 'loaded')
    e.check(b.inaccessibleInstruments == {}, 'no other instruments')
    if order == sorted(order, key=lambda k: max(15, sndref.inst_type(want[k]))):
        e.check_eq(bytes(b.save()[0]), d, 'the same file')
    roundtrip(e, b, want)


def equal(e, shape):
    want = [inst(e, i, k) for i, k in enumerate(shape)]
    for i in range(1, len(want)):
        for j in range(i):
            if want[i][0] == want[j][0] and e.choice(f'same{i}{j}', [False, True]):
                e.assume(sndref.inst_bytes(want[i]) == sndref.inst_bytes(want[j]))
    bank = sb.SBNK.fromInstruments([build(i) for i in want])
    roundtrip(e, bank, want)


def shared(e, shape):
    want = [inst(e, i, k) for i, k in enumerate(shape)]
    share = {}
    for i in range(1, len(want)):
        for j in range(i):
            if want[i] and want[j] and want[i][0] == want[j][0] and i not in share and j not in share:
                share[i] = j
                want[i] = [want[j][0], want[i][1]] + want[j][2:] if want[i][0] == 'single' else want[j]
    d = sndref.sbnk(want, None, share)
    b = sb.SBNK(d)
    same(e, b, want, 'loaded')
    e.check(b.inaccessibleInstruments == {}, 'no other instruments')
    roundtrip(e, b, want)


def types(e):
    s = e.pick('single', 1, 15)
    t = e.int('type', 0, 65535)
    want = [['single', s, note(e, 'a')], ['range', 5, [[t, note(e, 'b')]]], ['regional', [[127, t, note(e, 'c')]]]]
    bank = sb.SBNK.fromInstruments([build(i) for i in want])
    b = roundtrip(e, bank, want)
    n = [b.instruments[0].noteDefinition, b.instruments[1].noteDefinitions[0], b.instruments[2].regions[0].noteDefinition]
    e.check(isinstance(n[0].type, sb.NoteType) == (s <= 3), 'note type of the single-note instrument')
    e.check_eq(isinstance(n[1].type, sb.NoteType), e.all([t >= 1, t <= 3]), 'note type of the range instrument')
    c = b.instruments[0]
    c.type = 2
    e.check(c.noteDefinition.type == 2 and isinstance(c.noteDefinition.type, sb.NoteType), 'the type belongs to the note')
    c.noteDefinition.dutyCycle = 5
    e.check(c.noteDefinition.waveID == 5 and c.noteDefinition.dutyCycle == 5, 'the duty cycle is stored as the wave ID')
    d = sb.SBNK(bytes(b.save()[0])).instruments[0]
    e.check(d.type == 2 and d.noteDefinition.waveID == 5, 'after saving')


def big(e):
    ns = [[1, [i, 1, e.int(f'p{i}', 0, 255), 1, 2, 3, 4, i % 256]] for i in range(128)]
    want = [inst(e, 0, 'g2'), ['range', e.int('first', 0, 128), ns], inst(e, 2, 's'), None]
    roundtrip(e, sb.SBNK.fromInstruments([build(i) for i in want]), want)


def bigbank(e):
    want = [['range', i, [[1, [i, k, 60, 1, 2, 3, 4, 5]] for k in range(128)]] for i in range(30)]
    want += [inst(e, 30, 'r1'), inst(e, 31, 's'), inst(e, 32, 'g2'), None]
    roundtrip(e, sb.SBNK.fromInstruments([build(i) for i in want]), want)


def links(e):
    ids = [e.int(f'id{i}', 0, 65534) if e.choice(f'has{i}', [False, True]) else None for i in range(4)]
    n = e.pick('n', 0, 4)
    trimmed = ids[:n]
    while trimmed and trimmed[-1] is None:
        trimmed = trimmed[:-1]
    given = ids[:n]
    a = sb.SBNK(waveArchiveIDs=given)
    e.check(given == ids[:n], 'the given list is not changed')
    b = sb.SBNK(*a.save())
    c = sb.SBNK(*sb.SBNK.fromInstruments([None], 1, ids[:n]).save())
    for x in (a, b, c):
        e.check(len(x.waveArchiveIDs) == len(trimmed), 'number of links')
        for v, w in zip(x.waveArchiveIDs, trimmed):
            e.check((v is None) == (w is None), 'missing links')
            if w is not None:
                e.check_eq(v, w, 'link')


def regions(e):
    n = e.pick('n', 0, 10)
    i = inst(e, 0, 'g%d' % n)
    bank = sb.SBNK.fromInstruments([build(i)])
    x = e.raises(ValueError, bank.save)
    e.check((x is not None) == (n > 8), 'refused exactly with more than 8 regions')
    if 1 <= n <= 8:
        roundtrip(e, bank, [i])


def edit(e):
    want = [inst(e, 0, 'g2'), inst(e, 1, 's'), None, inst(e, 3, 'r2')]
    b = sb.SBNK(sndref.sbnk(want, [1, 3, 0]))
    k = e.pick('k', 0, 5)
    extra = inst(e, 9, 's')
    if k == 0:
        b.instruments.append(build(extra))
        want = want + [extra]
    elif k == 1:
        b.instruments[2] = build(extra)
        want = want[:2] + [extra] + want[3:]
    elif k == 2:
        b.instruments.pop(0)
        want = want[1:]
    elif k == 3:
        b.instruments[0].regions.pop()
        want = [['regional', want[0][1][:1]]] + want[1:]
    elif k == 4:
        b.instruments[3].noteDefinitions.append(sb.NoteDefinition(*extra[2], extra[1]))
        e.assume(want[3][1] < 250)
        want = want[:3] + [['range', want[3][1], want[3][2] + [[extra[1], extra[2]]]]]
    else:
        b.instruments[1].noteDefinition.pitch = extra[2][2]
        n = list(want[1][2])
        n[2] = extra[2][2]
        want = [want[0], ['single', want[1][1], n]] + want[2:]
    roundtrip(e, b, want, 'edited')


def keys(e):
    want = [inst(e, i, k) for i, k in enumerate(['s', 'r1', 's', 'g1', 's'])]
    bank = sb.SBNK.fromInstruments([build(i) for i in want])
    ks = e.choice('keys', [[0, 1, 2], [2, 1, 0], [1, 1, 0], [5, 9, 7]])
    for i, k in zip((0, 2, 4), ks):
        bank.instruments[i].bankOrderKey = k
    bank.instruments[2].dataMergeOptimizationID = e.choice('merge', [0, 1])
    if e.choice('equal', [False, True]):
        e.assume(sndref.inst_bytes(want[0]) == sndref.inst_bytes(want[2]))
    d = bytes(bank.save()[0])
    e.check_eq(sndref.read_sbnk(e, d), want, 'an independent reader finds the instruments')
    offs = [e.concrete(d[0x3D + 4 * i] | d[0x3E + 4 * i] << 8) for i in range(5)]
    e.check(max(offs[0], offs[2], offs[4]) < offs[1] < offs[3], 'single-note, range, regional')
    for (a, x), (b, y) in zip(list(zip((0, 2, 4), ks))[:-1], list(zip((0, 2, 4), ks))[1:]):
        e.check(x == y or len(set(offs)) < 5 or (x < y) == (offs[a] < offs[b]), 'order of the data')
    if bank.instruments[2].dataMergeOptimizationID == 1:
        e.check(offs[0] != offs[2], 'instruments with different merge IDs are not merged')
    same(e, sb.SBNK(d), want, 'reloaded')


def hidden(e):
    """Whatever is found between the instruments, the instruments stay."""
    want = [inst(e, i, k) for i, k in enumerate(['s', 's', 'r1', 'g1'])]
    w = e.pick('where', 0, 3)
    extra = e.choice('extra', ['s', 'r1', 'g1'])
    x = sndref.inst_bytes(build2(extra))
    full = want[:w] + [build2(extra)] + want[w:]
    d = sndref.sbnk(full)
    # drop the table entry of the extra instrument, keeping the positions
    t = 0x3C + 4 * w
    d = d[:0x38] + b'\4\0\0\0' + d[0x3C:t] + d[t + 4:0x3C + 20] + b'\0\0\0\0' + d[0x3C + 20:]
    b = sb.SBNK(d)
    same(e, b, want, 'loaded')
    c = sb.SBNK(bytes(b.save()[0]))
    same(e, c, want, 'saved and loaded')


def build2(kind):
    n = [1, 2, 60, 4, 5, 6, 7, 8]
    return ['single', 1, n] if kind == 's' else ['range', 7, [[1, n]]] if kind == 'r1' else ['regional', [[99, 1, n]]]


def defaults(e):
    a, b = sb.SBNK(), sb.SBNK()
    a.instruments.append(None)
    a.waveArchiveIDs.append(1)
    a.inaccessibleInstruments[0] = []
    e.check(b.instruments == [] and b.waveArchiveIDs == [] and b.inaccessibleInstruments == {}, 'banks share nothing')
    n = sb.NoteDefinition()
    e.check(fields(n) == [0, 0, 60, 127, 127, 127, 127, 64] and n.type is sb.NoteType.PCM, 'a new note')
    roundtrip(e, sb.SBNK(), [])
