"""Independent readers and writers of the sound files (waves, wave
archives, streams, banks)."""

from refs.bin import u16, u32, p8, p16, p32, header, mkheader


# ---------------------------------------------------------------- waves

def wave_fields(d, o, end):
    return [d[o], d[o + 1], u16(d, o + 2), u16(d, o + 4), u16(d, o + 6), u32(d, o + 8), d[o + 12:end]]


def wave_bytes(w):
    """w = [type, looped, rate, time, loop start, rest, data]"""
    return p8(w[0]) + p8(w[1]) + p16(w[2]) + p16(w[3]) + p16(w[4]) + p32(w[5]) + w[6]


def swav(w):
    b = wave_bytes(w)
    return mkheader(b'SWAV', 0x18 + len(b), 1, 0x100) + b'DATA' + p32(8 + len(b)) + b


def read_swav(e, d):
    header(e, d, b'SWAV', 1, 0x100, 'wave')
    e.check_eq(d[0x10:0x14], b'DATA', 'wave: block magic')
    e.check_eq(u32(d, 0x14), len(d) - 0x10, 'wave: block size')
    return wave_fields(d, 0x18, len(d))


def swar(ws, pad=0):
    n = len(ws)
    pos, table, body = 0x3C + 4 * n, b'', b''
    for w in ws:
        table += p32(pos + len(body))
        body += wave_bytes(w)
    size = pos + len(body)
    return (mkheader(b'SWAR', size, 1, 0x100) + b'DATA' + p32(size - 0x10) + bytes(32) + p32(n)
            + table + body + bytes(pad))


def read_swar(e, d):
    header(e, d, b'SWAR', 1, 0x100, 'wave archive')
    e.check_eq(d[0x10:0x14], b'DATA', 'wave archive: block magic')
    e.check_eq(u32(d, 0x14), len(d) - 0x10, 'wave archive: block size')
    n = e.concrete(u32(d, 0x38))
    offs = [e.concrete(u32(d, 0x3C + 4 * i)) for i in range(n)] + [len(d)]
    e.check(offs[0] == 0x3C + 4 * n, 'wave archive: the first wave follows the table')
    for i in range(n):
        e.check(offs[i] + 12 <= offs[i + 1], 'wave archive: waves do not overlap')
    return [wave_fields(d, offs[i], offs[i + 1]) for i in range(n)]


# -------------------------------------------------------------- streams

def strm(head, wavetype, looped, channels, per, last, headpad=0):
    """head: [unk03, rate, time, loop, unk28 ... unk44]; channels: lists of blocks."""
    nch = len(channels)
    nb = len(channels[0]) if channels else 0
    bpb = len(channels[0][0]) if nb else 0
    blb = len(channels[0][-1]) if nb else 0
    if wavetype == 2 and nb == 1:
        bpb -= 4
        blb -= 4
    body = b''
    for i in range(nb):
        for c in channels:
            body += c[i]
        while len(body) % 4:
            body += b'\0'
    total = (nb - 1) * per + last if nb else 0
    h = (b'HEAD' + p32(0x50) + p8(wavetype) + p8(looped) + p8(nch) + p8(head[0]) + p16(head[1]) + p16(head[2])
         + p32(head[3]) + p32(total) + p32(0x68) + p32(nb) + p32(bpb) + p32(per) + p32(blb) + p32(last))
    for v in head[4:]:
        h += p32(v)
    body = b'DATA' + p32(8 + len(body)) + body
    return mkheader(b'STRM', 0x10 + len(h) + len(body), 2, 0x100) + h + body


def read_strm(e, d):
    header(e, d, b'STRM', 2, 0x100, 'stream')
    e.check_eq(d[0x10:0x14], b'HEAD', 'stream: first block')
    e.check_eq(u32(d, 0x14), 0x50, 'stream: header block size')
    e.check_eq(d[0x60:0x64], b'DATA', 'stream: second block')
    e.check_eq(u32(d, 0x64), len(d) - 0x60, 'stream: data block size')
    head = [d[0x1B], u16(d, 0x1C), u16(d, 0x1E), u32(d, 0x20)] + [u32(d, 0x40 + 4 * i) for i in range(8)]
    total, off, nb, bpb, per, blb, last = [u32(d, 0x24 + 4 * i) for i in range(7)]
    e.check_eq(off, 0x68, 'stream: data offset')
    nb = e.concrete(nb)
    nch = e.concrete(d[0x1A])
    wavetype = e.concrete(d[0x18])
    e.check_eq(total, (nb - 1) * per + last if nb else 0, 'stream: total number of samples')
    bpb, blb = e.concrete(bpb), e.concrete(blb)
    if wavetype == 2 and nb == 1:
        bpb += 4
        blb += 4
    channels = [[] for _ in range(nch)]
    pos = 0x68
    for i in range(nb):
        size = blb if i == nb - 1 else bpb
        for c in range(nch):
            e.check(pos + size <= len(d), 'stream: block lies inside the file')
            channels[c].append(d[pos:pos + size])
            pos += size
        while pos % 4:
            pos += 1
    e.check(pos == len(d), 'stream: blocks fill the data block')
    return head, wavetype, d[0x19], channels, per, last


# ---------------------------------------------------------------- banks
# A note is [wave, archive, pitch, attack, decay, sustain, release, pan],
# an instrument None, ['single', type, note],
# ['range', first pitch, [[type, note], ...]] or
# ['regional', [[last pitch, type, note], ...]].

def note_bytes(n):
    r = p16(n[0]) + p16(n[1])
    for v in n[2:]:
        r += p8(v)
    return r


def inst_type(i):
    if i is None:
        return 0
    return i[1] if i[0] == 'single' else 16 if i[0] == 'range' else 17


def inst_bytes(i):
    if i[0] == 'single':
        return note_bytes(i[2])
    if i[0] == 'range':
        r = p8(i[1]) + p8(i[1] + len(i[2]) - 1)
        for t, n in i[2]:
            r += p16(t) + note_bytes(n)
        return r
    r = b''
    for k in range(8):
        r += p8(i[1][k][0]) if k < len(i[1]) else b'\0'
    for _, t, n in i[1]:
        r += p16(t) + note_bytes(n)
    return r


def sbnk(insts, order=None, share=None, pad=None):
    """order: the order in which the data is stored; share: {index: index
    whose data is used instead}."""
    share = share or {}
    n = len(insts)
    pos = 0x3C + 4 * n
    offs, body = {}, b''
    for k in order if order is not None else range(n):
        if insts[k] is None or k in share:
            continue
        offs[k] = pos + len(body)
        body += inst_bytes(insts[k])
    table = b''
    for k in range(n):
        o = 0 if insts[k] is None else offs[share.get(k, k)]
        table += p8(inst_type(insts[k])) + p16(o) + b'\0'
    if pad is None:
        pad = -(pos + len(body)) % 4
    body += bytes(pad)
    size = pos + len(body)
    return (mkheader(b'SBNK', size, 1, 0x100) + b'DATA' + p32(size - 0x10) + bytes(32) + p32(n) + table + body)


def read_note(d, o):
    return [u16(d, o), u16(d, o + 2)] + [d[o + 4 + i] for i in range(6)]


def read_sbnk(e, d):
    header(e, d, b'SBNK', 1, 0x100, 'bank')
    e.check_eq(d[0x10:0x14], b'DATA', 'bank: block magic')
    e.check_eq(u32(d, 0x14), len(d) - 0x10, 'bank: block size')
    e.check(len(d) % 4 == 0, 'bank: size is a multiple of 4')
    n = e.concrete(u32(d, 0x38))
    res = []
    for k in range(n):
        t = e.concrete(d[0x3C + 4 * k])
        o = e.concrete(u16(d, 0x3D + 4 * k))
        e.check_eq(d[0x3F + 4 * k], 0, 'bank: reserved byte')
        if t == 0:
            res.append(None)
            continue
        e.check(o >= 0x3C + 4 * n and o < len(d), 'bank: instrument lies behind the table')
        if t < 16:
            res.append(['single', t, read_note(d, o)])
        elif t == 16:
            cnt = e.concrete(d[o + 1] - d[o] + 1)
            res.append(['range', d[o], [[u16(d, o + 2 + 12 * j), read_note(d, o + 4 + 12 * j)] for j in range(cnt)]])
        else:
            cnt = 1
            while cnt < 8 and e.concrete(d[o + cnt] != 0):
                cnt += 1
            res.append(['regional', [[d[o + j], u16(d, o + 8 + 12 * j), read_note(d, o + 10 + 12 * j)]
                                     for j in range(cnt)]])
    return res
