"""W01: waves and wave archives survive saving and loading."""

import ndspy
import ndspy.soundWave as sw
import ndspy.soundWaveArchive as swa
from refs import sndref
from refs.bin import mkheader

ASSUMPTIONS = ['total length of a wave at least its loop offset (others are refused, which is checked too)',
               'waves of stated sizes with free contents']


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 10 if q else 40):
        yield dict(name=f'wave{n}', fn='wave', args={'n': n}, bounds=f'one wave of {n} bytes, free parameters')
    yield dict(name='waveblob', fn='waveblob', bounds='one wave of 0 to 16 MiB')
    for shape in [[], [0], [1], [4, 3], [0, 0, 0], [5, 0, 2], [8, 1, 0, 7]] + ([] if q else [[3] * 12, [0, 17, 2, 33, 4, 1]]):
        s = '.'.join(map(str, shape)) or 'none'
        yield dict(name=f'archive{s}', fn='archive', args={'shape': shape}, bounds=f'waves of {shape} bytes')
        for pad in (0, 4, 7):
            yield dict(name=f'load{s}-pad{pad}', fn='load', args={'shape': shape, 'pad': pad},
                       bounds=f'independently built archive, waves of {shape} bytes, {pad} bytes after the end')
    yield dict(name='archiveblob', fn='archiveblob', bounds='archives of two waves of 0 to 1 MiB and a short one')
    yield dict(name='update', fn='update', bounds='updateTime and updateTotalLength, every sample rate')
    yield dict(name='refuse', fn='refuse', bounds='loop offset beyond the total length')
    yield dict(name='edit', fn='edit', bounds='waves moved between archives')
    yield dict(name='defaults', fn='defaults', bounds='new objects')


def mk(e, i, n):
    w = [e.choice(f'type{i}', [0, 1, 2]), e.bool(f'loop{i}'), e.int(f'rate{i}', 0, 65535), e.int(f'time{i}', 0, 65535),
         e.int(f'start{i}', 0, 65535), e.int(f'rest{i}', 0, 0xFFFFFFFF)]
    return w + [e.bytes(f'd{i}', n)]


def obj(e, w):
    return sw.SWAV.fromData(w[6], waveType=ndspy.WaveType(w[0]), isLooped=w[1], sampleRate=w[2], time=w[3],
                            loopOffset=w[4], totalLength=w[4] + w[5])


def same(e, got, w, what):
    e.check(isinstance(got.waveType, ndspy.WaveType), what + ': wave type is an enum member')
    e.check_eq([got.waveType, got.isLooped, got.sampleRate, got.time, got.loopOffset, got.totalLength - got.loopOffset,
                bytes(got.data)], w, what)


def fields(w):
    return [w[0], e_int(w[1])] + w[2:]


def e_int(b):
    return b * 1


def wave(e, n):
    w = mk(e, 0, n)
    d = obj(e, w).save()
    e.check(isinstance(d, bytes), 'saved wave is bytes')
    e.check_eq(sndref.read_swav(e, d), fields(w), 'an independent reader finds the wave')
    same(e, sw.SWAV(d), w, 'reloaded')
    d2 = sndref.swav(fields(w))
    same(e, sw.SWAV(d2), w, 'loaded from an independently built file')
    same(e, sw.SWAV(d2 + b'more'), w, 'loaded with data after the end')
    e.check_eq(sw.SWAV(d2).save(), d2, 'saved again')


def waveblob(e):
    b = e.blob('data', 0, 1 << 24)
    s = sw.SWAV.fromData(b, waveType=ndspy.WaveType.ADPCM, totalLength=e.int('total', 0, 0xFFFFFFFF))
    d = s.save()
    t = sw.SWAV(d)
    e.check_eq(t.data, b, 'data')
    e.check_eq(t.totalLength, s.totalLength, 'total length')


def archive(e, shape):
    ws = [mk(e, i, n) for i, n in enumerate(shape)]
    unk = e.int('unk', 0, 65535)
    a = swa.SWAR.fromWaves([obj(e, w) for w in ws], unk)
    d, u = a.save()
    e.check_eq(u, unk, 'unk02 saved')
    e.check_eq(sndref.read_swar(e, bytes(d)), [fields(w) for w in ws], 'an independent reader finds the waves')
    b = swa.SWAR(bytes(d), u)
    e.check_eq(b.unk02, unk, 'unk02')
    e.check(len(b.waves) == len(ws), 'number of waves')
    for i, w in enumerate(ws):
        same(e, b.waves[i], w, f'wave {i}')
        same(e, a.waves[i], w, f'original wave {i} unchanged')


def archiveblob(e):
    ws = [mk(e, i, 4) for i in range(3)]
    for i in range(2):
        ws[i][6] = e.blob(f'b{i}', 0, 0x100000)
    d, u = swa.SWAR.fromWaves([obj(e, w) for w in ws], 0).save()
    b = swa.SWAR(bytes(d), u)
    for i, w in enumerate(ws):
        same(e, b.waves[i], w, f'wave {i}')


def load(e, shape, pad):
    ws = [mk(e, i, n) for i, n in enumerate(shape)]
    f = sndref.swar([fields(w) for w in ws], pad)
    b = swa.SWAR(f)
    e.check(len(b.waves) == len(ws), 'number of waves')
    for i, w in enumerate(ws):
        same(e, b.waves[i], w, f'wave {i}')
    e.check_eq(bytes(b.save()[0]), f[:len(f) - pad], 'saved again')


def update(e):
    rate = e.int('rate', 1, 65535)
    n = e.pick('n', 0, 13)
    total = e.int('total', 0, 0xFFFFFFFF)
    s = sw.SWAV.fromData(bytes(n), sampleRate=rate, time=5, totalLength=total)
    if e.choice('what', ['time', 'length']) == 'time':
        e.assume(rate >= 256)
        t = sw.SWAV(s.save(updateTime=True))
        e.check_eq(t.time, 16756991 // rate, 'time value follows the sample rate')
        e.check_eq(t.totalLength, total, 'total length kept')
        e.check_eq(s.time, t.time, 'time value of the saved object')
    else:
        t = sw.SWAV(s.save(updateTotalLength=True))
        e.check_eq(t.totalLength, n // 4, 'total length follows the data')
        e.check_eq(t.time, 5, 'time value kept')
        e.check_eq(s.totalLength, n // 4, 'total length of the saved object')


def refuse(e):
    total = e.int('total', 0, 0xFFFFFFFF)
    start = e.int('start', 0, 65535)
    s = sw.SWAV.fromData(b'abcd', loopOffset=start, totalLength=total)
    x = e.raises(ValueError, s.save)
    e.check_eq(start > total, x is not None, 'refused exactly if the loop offset lies beyond the total length')
    if x is None:
        e.check_eq(sw.SWAV(e.result).totalLength, total, 'total length')


def edit(e):
    ws = [mk(e, i, 2 + i) for i in range(3)]
    a = swa.SWAR(sndref.swar([fields(w) for w in ws]))
    b = swa.SWAR()
    k = e.pick('k', 0, 2)
    b.waves.append(a.waves.pop(k))
    b.waves.append(a.waves[0])
    moved = [ws[k], [w for i, w in enumerate(ws) if i != k][0]]
    rest = [w for i, w in enumerate(ws) if i != k]
    for arc, want in ((a, rest), (b, moved)):
        c = swa.SWAR(*arc.save())
        e.check(len(c.waves) == len(want), 'number of waves')
        for i, w in enumerate(want):
            same(e, c.waves[i], w, f'wave {i}')


def defaults(e):
    a, b = swa.SWAR(), swa.SWAR()
    a.waves.append(sw.SWAV())
    e.check(b.waves == [], 'archives do not share their lists')
    e.check(swa.SWAR().waves == [] and swa.SWAR().unk02 == 0, 'a new archive is empty')
    s = sw.SWAV()
    same(e, sw.SWAV(s.save()), [0, False, 8000, 0, 0, 0, b''], 'a new wave')
    same(e, sw.SWAV.fromData(), [0, False, 8000, 0, 0, 0, b''], 'a new wave')
