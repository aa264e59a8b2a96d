"""Free sound archive entries, as tuples of refs.sdatref and as objects."""

import ndspy.soundArchive as sarc
import ndspy.soundBank as sb
import ndspy.soundGroup as sg
import ndspy.soundSequence as sq
import ndspy.soundSequenceArchive as sa
import ndspy.soundSequencePlayer as sp
import ndspy.soundStream as st
import ndspy.soundStreamPlayer as stp
import ndspy.soundWaveArchive as sw
from refs import sdatref, sndref, seqref

ATTR = {'seq': 'sequences', 'ssar': 'sequenceArchives', 'bank': 'banks', 'swar': 'waveArchives',
        'player': 'sequencePlayers', 'group': 'groups', 'splayer': 'streamPlayers', 'strm': 'streams'}


def filedata(e, part, n, size=1):
    """A file with free contents."""
    b = e.bytes(f'{part}_data{n}', size)
    if part == 'seq':
        return seqref.sseq(b + b'\xff')
    if part == 'ssar':
        return seqref.ssar([[0, 1, 2, 3, 4, 5]] * (n % 3), b)
    if part == 'bank':
        return sndref.sbnk([['single', 1, [b[0], 0, 60, 127, 127, 127, 127, 64]]] * size)
    if part == 'swar':
        return sndref.swar([[1, 0, 32768, 512, 0, 1, b + bytes(3)]])
    return sndref.strm([0, 32768, 512, 0] + [0] * 8, 0, 0, [[b + bytes(-size % 4)]], 4, size)


def entry(e, part, n, size=1):
    """A free entry; files stand at the end as bytes."""
    k = f'{part}{n}_'
    if part == 'seq':
        return [e.int(k + 'unk', 0, 65535), e.int(k + 'bank', 0, 65535)] + \
            [e.int(k + x, 0, 255) for x in ('vol', 'cp', 'pp', 'player')] + [filedata(e, part, n, size)]
    if part == 'ssar':
        return [e.int(k + 'unk', 0, 65535), [[], ['x'], [None, 'yy']][n % 3], filedata(e, part, n, size)]
    if part == 'bank':
        ids = [e.int(k + f'w{i}', 0, 32767) if (n + i) % 3 else None for i in range(4)]
        return [e.int(k + 'unk', 0, 65535), ids, filedata(e, part, n, size)]
    if part == 'swar':
        return [e.int(k + 'unk', 0, 65535), filedata(e, part, n, size)]
    if part == 'player':
        return [e.int(k + 'max', 0, 65535), [0, 0x8001, 0xFFFF, 0x0420][n % 4], e.int(k + 'heap', 0, 0xFFFFFFFF)]
    if part == 'group':
        return [[i, (n * 5 + i * 7) % 16, e.int(k + f'id{i}', 0, 0xFFFFFFFF)] for i in range((n + 1) % 4)]
    if part == 'splayer':
        return [e.int(k + f'c{i}', 0, 255) for i in range((0, 2, 16, 1)[n % 4])]
    return [e.int(k + 'unk', 0, 65535)] + [e.int(k + x, 0, 255) for x in ('vol', 'prio', 'player', 'unk7')] + \
        [filedata(e, part, n, size)]


def make(part, v):
    if v is None:
        return None
    if part == 'seq':
        return sq.SSEQ(v[6], *v[:6])
    if part == 'ssar':
        return sa.SSAR(v[2], v[0], v[1])
    if part == 'bank':
        return sb.SBNK(v[2], v[0], list(v[1]))
    if part == 'swar':
        return sw.SWAR(v[1], v[0])
    if part == 'player':
        return sp.SequencePlayer(v[0], {i for i in range(16) if v[1] >> i & 1}, v[2])
    if part == 'group':
        return [sg.GroupEntry(*x) for x in v]
    if part == 'splayer':
        return stp.StreamPlayer(list(v))
    return st.STRM(v[5], *v[:5])


def archive(a):
    s = sarc.SDAT()
    for part, attr in ATTR.items():
        setattr(s, attr, [(n, make(part, v)) for n, v in a[part]])
    return s


def contents(part, o):
    """The object as an entry."""
    if o is None:
        return None
    if part == 'seq':
        r = o.save()
        return list(r[1:]) + [bytes(r[0])]
    if part == 'ssar':
        r = o.save()
        return [r[1], list(r[2]), bytes(r[0])]
    if part == 'bank':
        r = o.save()
        return [r[1], (list(r[2]) + [None] * 4)[:max(4, len(r[2]))], bytes(r[0])]
    if part == 'swar':
        r = o.save()
        return [r[1], bytes(r[0])]
    if part == 'player':
        return [o.maxSequences, sum(1 << i for i in o.channels), o.heapSize]
    if part == 'group':
        return [[int(x.type), (1 if x.loadSSEQ else 0) | (2 if x.loadSBNKSWARsFrom == 1 else 0) | (4 if x.loadSWAR else 0)
                 | (8 if x.loadSSAR else 0), x.id] for x in o]
    if part == 'splayer':
        return list(o.channels)
    r = o.save()
    return list(r[1:]) + [bytes(r[0])]


def blank():
    return {p: [] for p in sdatref.PARTS}


def same(e, s, a, what='archive'):
    """The SDAT object s has the contents of archive a."""
    for part, attr in ATTR.items():
        got = getattr(s, attr)
        e.check(len(got) == len(a[part]), f'{what}: number of {attr}')
        for i, ((n, o), (m, v)) in enumerate(zip(got, a[part])):
            w = f'{what}: {attr} {i}'
            if m is None:
                e.check(n is None, w + ': no name')
            else:
                e.check(n is not None, w + ': name')
                e.check_eq(n, m, w + ': name')
            if v is None:
                e.check(o is None, w + ': empty')
            else:
                e.check(o is not None, w + ': not empty')
                e.check_eq(contents(part, o), v, w)


def asread(a, files=None):
    """The archive as refs.sdatref.read gives it, but with files as bytes."""
    out = {}
    for part in a:
        out[part] = []
        for n, v in a[part]:
            if v is not None:
                v = list(v)
                if part == 'ssar':
                    v[1] = [sdatref.chars(x) for x in v[1]]
                if part == 'bank':
                    v[1] = [0xFFFF if x is None else x for x in v[1]]
            out[part].append((sdatref.chars(n), v))
    return out


def resolve(e, got, files, want, symb, strip=False):
    """Compares what was read with what is wanted."""
    for part in want:
        e.check(len(got[part]) == len(want[part]), f'number of {part} entries')
        for i, ((n, v), (m, x)) in enumerate(zip(got[part], want[part])):
            w = f'{part} {i}'
            e.check((n is None) == (m is None), w + ': name or not')
            if m is not None:
                e.check_eq(n, m, w + ': name')
            e.check((v is None) == (x is None), w + ': empty or not')
            if x is None:
                continue
            v = list(v)
            x = list(x)
            if part in sdatref.FILES:
                f, g = files[v[-1]], x[-1]
                if strip:
                    e.check_eq(f[len(g):], bytes(len(f) - len(g)), w + ': padding behind the file')
                    f = f[:len(g)]
                e.check_eq(f, g, w + ': file')
                v, x = v[:-1], x[:-1]
            if part == 'ssar' and not symb:
                v, x = v[:1], x[:1]
            e.check_eq(v, x, w + ': parameters')
