"""W02: streams survive saving and loading."""

import ndspy
import ndspy.soundStream as st
from refs import sndref

ASSUMPTIONS = ['all blocks but the last have the same size in every channel (others are refused, which is checked '
               'too); ADPCM blocks hold at least their 4-byte header',
               'up to 3 channels (quick) of up to 4 blocks of stated sizes with free contents']
UNK = ['unk03', 'sampleRate', 'time', 'loopOffset', 'unk28', 'unk2C', 'unk30', 'unk34', 'unk38', 'unk3C', 'unk40', 'unk44']
ENTRY = ['unk02', 'volume', 'priority', 'playerID', 'unk07']


def cases(tier):
    q = tier == 'quick'
    shapes = [(0, 0, 0, 0), (1, 0, 0, 0), (2, 0, 0, 0), (1, 1, 0, 4), (1, 1, 0, 7), (2, 1, 0, 6), (3, 1, 0, 5), (1, 2, 4, 4),
              (2, 2, 8, 5), (2, 3, 5, 4), (3, 2, 7, 6), (2, 2, 4, 9), (1, 4, 6, 4), (2, 2, 8, 0), (1, 1, 0, 0)]
    if not q:
        shapes += [(c, b, n, m) for c in range(1, 5) for b in range(1, 6) for n in (4, 5, 9) for m in (4, 7, 13)]
    for c, b, n, m in shapes:
        for wt in (0, 1, 2):
            if wt == 2 and 0 < b and m < 4:
                continue
            yield dict(name=f't{wt}-{c}x{b}-{n}-{m}', fn='stream', args={'c': c, 'b': b, 'n': n, 'm': m, 'wt': wt},
                       bounds=f'wave type {wt}, {c} channels of {b} blocks of {n} bytes, the last of {m}')
    yield dict(name='blob', fn='blob', bounds='one block of up to 1 MiB')
    yield dict(name='refuse', fn='refuse', bounds='channels that do not fit together')
    yield dict(name='update', fn='update', bounds='updateTime for every sample rate')
    yield dict(name='reload', fn='reload', bounds='a loaded stream after edits')
    yield dict(name='defaults', fn='defaults', bounds='new objects')


def mk(e, c, b, n, m):
    chans = [[e.bytes(f'c{i}b{j}', n if j < b - 1 else m) for j in range(b)] for i in range(c)]
    head = [e.int('h0', 0, 255), e.int('h1', 0, 65535), e.int('h2', 0, 65535)]
    head += [e.int(f'h{i}', 0, 0xFFFFFFFF) for i in range(3, 12)]
    entry = [e.int(f'e{i}', 0, 65535 if not i else 255) for i in range(5)]
    return chans, head, entry


def same(e, s, chans, head, wt, looped, per, last, what):
    e.check(isinstance(s.waveType, ndspy.WaveType), what + ': wave type is an enum member')
    e.check_eq([s.waveType, s.isLooped, s.samplesPerBlock, s.samplesInLastBlock], [wt, looped, per, last], what + ': parameters')
    e.check_eq([getattr(s, k) for k in UNK], head, what + ': header values')
    e.check(len(s.channels) == len(chans), what + ': number of channels')
    for i, c in enumerate(chans):
        e.check(len(s.channels[i]) == len(c), what + f': number of blocks of channel {i}')
        for j, b in enumerate(c):
            e.check_eq(s.channels[i][j], b, what + f': block {j} of channel {i}')


def build(chans, head, entry, wt, looped, per, last):
    s = st.STRM.fromChannels(chans, *entry)
    s.waveType = ndspy.WaveType(wt)
    s.isLooped = looped
    for k, v in zip(UNK, head):
        setattr(s, k, v)
    s.samplesPerBlock = per
    s.samplesInLastBlock = last
    return s


def stream(e, c, b, n, m, wt):
    chans, head, entry = mk(e, c, b, n, m)
    looped = e.bool('looped')
    per, last = e.int('per', 0, 0xFFFFF), e.int('last', 0, 0xFFFFF)
    s = build(chans, head, entry, wt, looped, per, last)
    r = s.save()
    e.check(len(r) == 6 and isinstance(r[0], bytes), 'six values are returned')
    e.check_eq(list(r[1:]), entry, 'entry values returned')
    h, t, lo, ch, p, la = sndref.read_strm(e, r[0])
    e.check_eq([h, lo, p, la], [head, looped * 1, per, last], 'an independent reader finds the parameters')
    e.check_eq(ch, chans, 'an independent reader finds the blocks')
    e.check(t == wt, 'wave type')
    s2 = st.STRM(*r)
    same(e, s2, chans, head, wt, looped, per, last, 'reloaded')
    e.check_eq([getattr(s2, k) for k in ENTRY], entry, 'entry values')
    d = sndref.strm(head, wt, looped * 1, chans, per, last)
    s3 = st.STRM(d)
    same(e, s3, chans, head, wt, looped, per, last, 'independently built')
    e.check_eq(s3.save()[0], d, 'saved again')
    same(e, s, chans, head, wt, looped, per, last, 'the original')


def blob(e):
    b = e.blob('data', 4, 1 << 20)
    wt = e.choice('wt', [0, 1, 2])
    s = st.STRM.fromChannels([[b]])
    s.waveType = ndspy.WaveType(wt)
    s.samplesInLastBlock = e.int('n', 0, 1 << 22)
    t = st.STRM(*s.save())
    e.check(len(t.channels) == 1 and len(t.channels[0]) == 1, 'one block')
    e.check_eq(t.channels[0][0], b, 'data')
    e.check_eq(t.samplesInLastBlock, s.samplesInLastBlock, 'samples')


def refuse(e):
    k = e.pick('k', 0, 5)
    chans = [[b'abcd', b'efgh', b'ij'], [b'klmn', b'opqr', b'st']]
    if k == 0:
        chans[1].append(b'uv')
    elif k == 1:
        chans[0].pop()
    elif k == 2:
        chans[0][1] = b'efghx'
    elif k == 3:
        chans[1][0] = b'klm'
    elif k == 4:
        chans[1][2] = b'stu'
    else:
        chans[1] = []
    e.check(e.raises(ValueError, st.STRM.fromChannels(chans).save) is not None, 'refused')


def update(e):
    rate = e.int('rate', 16, 65535)
    s = st.STRM.fromChannels([[b'abcd']])
    s.sampleRate = rate
    s.time = 7
    e.check_eq(st.STRM(s.save()[0]).time, 7, 'time value kept')
    t = st.STRM(s.save(updateTime=True)[0])
    e.check_eq(t.time, s.time, 'time value saved')
    e.check_eq(t.time, 16756991 // (rate * 32), 'time value follows the sample rate')


def reload(e):
    chans, head, entry = mk(e, 2, 2, 5, 4)
    s = st.STRM(sndref.strm(head, 0, 1, chans, 5, 4), *entry)
    k = e.pick('k', 0, 3)
    if k == 0:
        s.channels.pop()
        chans = chans[:1]
    elif k == 1:
        for i, c in enumerate(s.channels):
            c.append(b'xyz')
            c[1] = b'12345'
            chans[i] = [chans[i][0], b'12345', b'xyz']
    elif k == 2:
        s.channels.reverse()
        chans = [chans[1], chans[0]]
    else:
        s.channels = [c[1:] for c in s.channels]
        chans = [c[1:] for c in chans]
    t = st.STRM(*s.save())
    same(e, t, chans, head, 0, True, 5, 4, 'after edits')
    e.check_eq([getattr(t, f) for f in ENTRY], entry, 'entry values')


def defaults(e):
    a, b = st.STRM(), st.STRM()
    a.channels.append([b'abcd'])
    e.check(b.channels == [], 'streams do not share their lists')
    c = st.STRM(*st.STRM().save())
    same(e, c, [], [0, 8000, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], 0, False, 0, 0, 'a new stream')
    e.check([getattr(c, k) for k in ENTRY] == [0, 127, 64, 0, 0], 'entry values')
