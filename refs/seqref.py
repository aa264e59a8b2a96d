"""Independent encoder, decoder and control flow analysis of sequence
events.

An event is a tuple: ('note', pitch, velocity, flag, duration),
('rest', duration), ('inst', bank, instrument), ('track', number, target),
('jump', target), ('call', target), ('random', subtype, args, min, max),
('var', subtype, variable, unknown), ('arith', type, variable, value),
('simple', type, value), ('word', type, value), ('tracks', bits), ('if',),
('endloop',), ('return',), ('end',) or ('raw', bytes).  Targets are indexes
into the list of events."""

from refs.bin import p8, p16, p32, u16, u32, header, mkheader

ARITH = list(range(0xB0, 0xBE))
SIMPLE = list(range(0xC0, 0xD7)) + [0xE0]
WORD = [0xE1, 0xE3]
PLAIN = {'if': 0xA2, 'endloop': 0xFC, 'return': 0xFD, 'end': 0xFF}


def vlv(x):
    r = p8(x & 0x7F)
    x = x >> 7
    while x > 0:
        r = p8(x & 0x7F | 0x80) + r
        x = x >> 7
    return r


def p24(v):
    return p32(v)[:3]


def random_args(sub):
    """Number of bytes before the random range, or None if unspecified."""
    if sub < 0x80 or sub in ARITH:
        return 1
    if sub in (0x80, 0x81) or sub in SIMPLE or sub in WORD:
        return 0
    return None


def encode1(v, pos):
    k = v[0]
    if k == 'note':
        return p8(v[1]) + p8(v[2] | v[3] * 0x80) + vlv(v[4])
    if k == 'rest':
        return b'\x80' + vlv(v[1])
    if k == 'inst':
        return b'\x81' + vlv(v[1] << 7 | v[2])
    if k == 'track':
        return b'\x93' + p8(v[1]) + p24(pos[v[2]])
    if k == 'jump':
        return b'\x94' + p24(pos[v[1]])
    if k == 'call':
        return b'\x95' + p24(pos[v[1]])
    if k == 'random':
        r = b'\xa0' + p8(v[1])
        for a in v[2]:
            r += p8(a)
        return r + p16(v[3] & 0xFFFF) + p16(v[4] & 0xFFFF)
    if k == 'var':
        r = b'\xa1' + p8(v[1])
        if v[1] in ARITH:
            r += p8(v[3] & 0xFF)
        return r + p8(v[2] & 0xFF)
    if k == 'arith':
        return p8(v[1]) + p8(v[2]) + p16(v[3] & 0xFFFF)
    if k == 'simple':
        return p8(v[1]) + p8(v[2])
    if k == 'word':
        return p8(v[1]) + p16(v[2])
    if k == 'tracks':
        return b'\xfe' + p16(v[1])
    if k == 'raw':
        return v[1]
    return p8(PLAIN[k])


def positions(events):
    pos, o = [], 0
    zero = [0] * (len(events) + 1)
    for v in events:
        pos.append(o)
        o += len(encode1(v, zero))
    return pos


def encode(events):
    """The data and the position of every event."""
    pos = positions(events)
    d = b''
    for v in events:
        d += encode1(v, pos)
    return d, pos


def sseq(d, start=0x1C, after=b''):
    size = start + len(d)
    return (mkheader(b'SSEQ', size, 1, 0x100) + b'DATA' + p32(size - 0x10) + p32(start) + bytes(start - 0x1C) + d + after)


def read_sseq(e, d):
    header(e, d, b'SSEQ', 1, 0x100, 'sequence')
    e.check_eq(d[0x10:0x14], b'DATA', 'sequence: block magic')
    e.check_eq(u32(d, 0x14), len(d) - 0x10, 'sequence: block size')
    start = e.concrete(u32(d, 0x18))
    e.check(0x1C <= start <= len(d), 'sequence: data offset')
    return d[start:]


def ssar(seqs, d, gap=0, after=b''):
    """seqs: [offset or None, bank, volume, channel, poly, player]"""
    start = 0x20 + 12 * len(seqs) + gap
    t = b''
    for o, b, v, c, p, n in seqs:
        t += p32(0xFFFFFFFF if o is None else o) + p16(b) + p8(v) + p8(c) + p8(p) + p8(n) + bytes(2)
    size = start + len(d)
    return (mkheader(b'SSAR', size, 1, 0x100) + b'DATA' + p32(size - 0x10) + p32(start) + p32(len(seqs)) + t
            + bytes(gap) + d + after)


def read_ssar(e, d):
    header(e, d, b'SSAR', 1, 0x100, 'sequence archive')
    e.check_eq(d[0x10:0x14], b'DATA', 'sequence archive: block magic')
    e.check_eq(u32(d, 0x14), len(d) - 0x10, 'sequence archive: block size')
    n = e.concrete(u32(d, 0x1C))
    start = e.concrete(u32(d, 0x18))
    e.check(0x20 + 12 * n <= start <= len(d), 'sequence archive: data offset')
    seqs = []
    for i in range(n):
        o = 0x20 + 12 * i
        seqs.append([u32(d, o), u16(d, o + 4)] + [d[o + 6 + k] for k in range(4)])
    return seqs, d[start:]


# ------------------------------------------------- control flow analysis

def flow(events, starts=(0,)):
    """Whether the control flow is one the library promises to follow: every
    event can be reached, no track runs off the end or returns from nothing;
    no target behind an 'if', no recursion, no track started by a
    subroutine."""
    n = len(events)
    kind = [v[0] for v in events]
    target = [v[-1] if v[0] in ('jump', 'call', 'track') else None for v in events]
    for t in list(target) + list(starts):
        if t is not None and t > 0 and kind[t - 1] == 'if':
            return False

    def succ(i, cond, ret):
        k = kind[i]
        out, r = [], False
        if k == 'jump':
            out.append((target[i], False))
        elif k == 'call':
            if (target[i], False) in ret:
                out.append((i + 1, False))
        elif k == 'return':
            r = True
        elif k not in ('end', 'raw'):
            out.append((i + 1, k == 'if'))
        if cond:
            out.append((i + 1, False))
        return out, r

    ret = set()
    while True:
        new = set()
        for i in range(n):
            for c in (False, True):
                if (i, c) not in ret:
                    out, r = succ(i, c, ret)
                    if r or any(x in ret for x in out):
                        new.add((i, c))
        if not new:
            break
        ret |= new

    def walk(start):
        seen, todo = set(), [(start, False)]
        calls, tracks = set(), set()
        while todo:
            x = todo.pop()
            if x[0] >= n:
                return None
            if x in seen:
                continue
            seen.add(x)
            if kind[x[0]] == 'call':
                calls.add(target[x[0]])
            if kind[x[0]] == 'track':
                tracks.add(target[x[0]])
            todo += succ(x[0], x[1], ret)[0]
        return {i for i, _ in seen}, calls, tracks

    reached, done, todo = set(), {}, [(s, False) for s in starts]
    graph = {}
    while todo:
        s, sub = todo.pop()
        if (s, sub) in done:
            continue
        done[s, sub] = True
        w = walk(s)
        if w is None or not sub and (s, False) in ret:
            return False
        if sub and w[2]:
            return False
        graph.setdefault(s, set()).update(w[1])
        reached |= w[0]
        todo += [(c, True) for c in w[1]] + [(t, False) for t in w[2]]
    if len(reached) != n:
        return False
    for s in graph:  # recursion
        seen, todo = set(), list(graph[s])
        while todo:
            c = todo.pop()
            if c == s:
                return False
            if c not in seen:
                seen.add(c)
                todo += graph.get(c, ())
    return True
