"""B01: BMG messages survive saving and loading."""

import ndspy.bmg as bmg
from refs import bmgref as ref

ASSUMPTIONS = [
    'up to 3 messages with up to 5 parts; text of up to 3 characters per part, every character the encoding '
    'has except NUL and 1A (Shift JIS: every one-byte character and 8 two-byte ones)',
    'escape sequences with up to 3 bytes of any data, and of the maximum length with fixed data']

ENCS = [('cp1252', '<'), ('cp1252', '>'), ('utf-16', '<'), ('utf-16', '>'), ('shift-jis', '<'), ('shift-jis', '>'),
        ('utf-8', '<'), ('utf-8', '>')]
SHAPES = ['', 's1', 's2', 'e0', 'e2', 'null', 's1 e1 s1', 'e0 e3', 'e1 s2', 's2 e1', 's0 e1 s0', 's1 s1', 's1 s1 e2 s1 s0 s1',
          'max', 's1 max s1']


def cases(tier):
    q = tier == 'quick'
    for enc, order in ENCS:
        tag = enc + ('be' if order == '>' else 'le')
        for shape in SHAPES:
            yield dict(name=f'{tag}-{shape or "empty"}', fn='one', args={'enc': enc, 'order': order, 'shapes': [shape], 'k': 2},
                       bounds=f'{enc}, one message of shape "{shape}", 2 info bytes')
        if not q:
            for a in ('s3', 's2 e1 s2', 'e3 e3 e3'):
                yield dict(name=f'{tag}-{a}', fn='one', args={'enc': enc, 'order': order, 'shapes': [a], 'k': 2},
                           bounds=f'{enc}, one message of shape "{a}", 2 info bytes')
        for k in (0, 1, 3, 12):
            yield dict(name=f'{tag}-info{k}', fn='one',
                       args={'enc': enc, 'order': order, 'shapes': ['null', 's1', '', 'e1', 'null'], 'k': k},
                       bounds=f'{enc}, five messages with {k} info bytes')
        yield dict(name=f'{tag}-none', fn='one', args={'enc': enc, 'order': order, 'shapes': [], 'k': 0},
                   bounds=f'{enc}, no messages')
        for k in range(0, 33 if q else 70):
            yield dict(name=f'{tag}-long{k}', fn='long', args={'enc': enc, 'order': order, 'n': k},
                       bounds=f'{enc}, messages of {k} characters around section boundaries, 1 free each')
        yield dict(name=f'{tag}-huge', fn='long', args={'enc': enc, 'order': order, 'n': 70000}, ticks=5000000,
                   bounds=f'{enc}, messages of 70000 characters, 1 free each')
        yield dict(name=f'{tag}-foreign', fn='foreign', args={'enc': enc, 'order': order},
                   bounds=f'{enc}, files with shared, overlapping and reordered texts and sections in another order')
        yield dict(name=f'{tag}-sizes', fn='sizes', args={'enc': enc, 'order': order},
                   bounds=f'{enc}, files of any size up to 190 KB')
        yield dict(name=f'{tag}-bad', fn='bad', args={'enc': enc, 'order': order},
                   bounds=f'{enc}, texts with one NUL or 1A among others')
    yield dict(name='infolen', fn='infolen', bounds='two or three messages with info of different lengths')
    yield dict(name='magic', fn='magic', bounds='8 bytes of any magic')
    yield dict(name='encoding', fn='encoding', bounds='any encoding number')
    yield dict(name='fullenc', fn='fullenc', bounds='all encodings and byte orders')


KANJI = 'あア漢字表能　ー'


def text(e, name, n, enc):
    if enc == 'cp1252':
        s = e.str(name, n, 1, 0xFF, '\x1A')
        for c in s:
            e.assume((0x80 <= ord(c) <= 0x9F) == False)
        if n and name[-1] in '01' and e.bool(name + '!'):
            s = s[1:] + e.choice(name + '?', '€Œ™Ÿ‘')
        return s
    if enc == 'shift-jis':
        s = e.str(name, n, 1, 0x7F, '\x1A')
        if n and name[-1] in '01':
            k = e.choice(name + '!', [0, 1, 2])
            if k == 1:
                s = s[1:] + e.str(name + 'k', 1, 0xFF61, 0xFF9F)
            elif k == 2:
                s = s[1:] + e.choice(name + '?', KANJI)
        return s
    s = e.str(name, n, 1, 0x10FFFF, '\x1A')
    for c in s:
        e.assume((0xD800 <= ord(c) <= 0xDFFF) == False)
    return s


def message(e, name, shape, enc, order, k):
    """A message, its expected raw text and its expected parts."""
    f = ref.full(enc, order)
    info = e.bytes(name + 'info', k)
    if shape == 'null':
        return bmg.Message(info, [], True), None, [], info
    parts, raw, want = [], b'', []
    for i, p in enumerate(shape.split()):
        if p[0] == 's':
            s = text(e, f'{name}s{i}', int(p[1]), enc)
            parts.append(s)
            raw = raw + s.encode(f)
            if len(s) == 0:
                pass
            elif want and isinstance(want[-1], str):
                want[-1] = want[-1] + s
            else:
                want.append(s)
        else:
            typ = e.int(f'{name}t{i}', 0, 255)
            if p == 'max':
                data = bytes([7] * (253 - len('\x1A'.encode(f))))
            else:
                data = e.bytes(f'{name}d{i}', int(p[1]))
            parts.append(bmg.Message.Escape(typ, data))
            raw = raw + ref.escape(enc, order, typ, data)
            want.append((typ, data))
    return bmg.Message(info, parts), raw + '\0'.encode(f), want, info


def same(e, m, want, info, null, what):
    e.check_eq(m.info, info, f'{what}: info')
    e.check(m.isNull == null, f'{what}: null')
    e.check(len(m.stringParts) == len(want), f'{what}: number of parts')
    for p, w in zip(m.stringParts, want):
        if isinstance(w, str):
            e.check(isinstance(p, str), f'{what}: kind of part')
            e.check_eq(p, w, f'{what}: text')
        else:
            e.check(isinstance(p, bmg.Message.Escape), f'{what}: kind of part')
            e.check_eq(p.type, w[0], f'{what}: escape type')
            e.check_eq(p.data, w[1], f'{what}: escape data')


def build(e, enc, order, ms):
    b = bmg.BMG.fromMessages([m[0] for m in ms], id=e.int('id', 0, 0xFFFFFFFF))
    b.encoding, b.endianness = enc, order
    b.unk14, b.unk18, b.unk1C = [e.int(f'unk{i}', 0, 0xFFFFFFFF) for i in range(3)]
    return b


def verify(e, b, enc, order, ms):
    d = b.save()
    r = ref.read(e, d, order, enc)
    e.check_eq(r['magics'], [b'INF1', b'DAT1'], 'sections')
    e.check_eq(r['id'], b.id, 'ID')
    e.check_eq(r['unks'], [b.unk14, b.unk18, b.unk1C], 'header values')
    e.check(len(r['info']) == len(ms), 'number of entries')
    for i, (m, raw, want, info) in enumerate(ms):
        off, got = r['info'][i]
        e.check_eq(got, info, f'info of message {i}')
        if raw is None:
            e.check_eq(off, 0, f'message {i} is null')
        else:
            e.check(off != 0, f'message {i} is not null')
            e.check_eq(r['text'][off:off + len(raw)], raw, f'text of message {i}')
    loads(e, d, b, enc, order, ms)
    return d


def loads(e, d, b, enc, order, ms):
    c = bmg.BMG(d)
    e.check(c.endianness == order, 'byte order')
    e.check(c.encoding == enc, 'encoding')
    e.check_eq(c.id, b.id, 'ID')
    e.check_eq([c.unk14, c.unk18, c.unk1C], [b.unk14, b.unk18, b.unk1C], 'header values')
    e.check(c.instructions == [] and c.labels == [] and c.scripts == [], 'no scripts')
    e.check(len(c.messages) == len(ms), 'number of messages')
    for i, (m, raw, want, info) in enumerate(ms):
        same(e, c.messages[i], want, info, raw is None, f'message {i}')
    e.check_eq(c.save(), d, 'saving again gives the same file')


def one(e, enc, order, shapes, k):
    ms = [message(e, f'm{i}', s, enc, order, k) for i, s in enumerate(shapes)]
    verify(e, build(e, enc, order, ms), enc, order, ms)


def long(e, enc, order, n):
    f = ref.full(enc, order)
    ms = []
    for i in range(2):
        s = 'x' * n + e.str(f'c{i}', 1, 0x20, 0x7E)
        ms.append((bmg.Message(b'', s), (s + '\0').encode(f), [s], b''))
    verify(e, build(e, enc, order, ms), enc, order, ms)


def sizes(e, enc, order):
    """Any file size: info of any length."""
    f = ref.full(enc, order)
    info = e.blob('info', 0, 0xFFFB)
    ms = [(bmg.Message(info, 'x'), 'x\0'.encode(f), ['x'], info), (bmg.Message(info, [], True), None, [], info),
          (bmg.Message(info, 'yy'), 'yy\0'.encode(f), ['yy'], info)]
    verify(e, build(e, enc, order, ms), enc, order, ms)


def foreign(e, enc, order):
    f = ref.full(enc, order)
    w = len('\0'.encode(f))
    a, c = e.str('a', 2, 0x20, 0x7E), e.str('c', 1, 0x20, 0x7E)
    typ, data = e.int('typ', 0, 255), e.bytes('data', 2)
    esc = ref.escape(enc, order, typ, data)
    texts = [a.encode(f) + bytes(w), esc + c.encode(f) + bytes(w), bytes(w)]
    perm = e.choice('perm', [[0, 1, 2], [2, 1, 0], [1, 0, 2]])
    pos, body = {}, bytes(w)
    for i in perm:
        pos[i] = len(body)
        body = body + texts[i]
    # all, shared, the tail of another, null, empty
    offs = [pos[0], pos[1], pos[0], pos[0] + w, 0, pos[2]]
    wants = [[a], [(typ, data), c], [a], [a[1:]], [], []]
    infos = [e.bytes(f'i{i}', 3) for i in range(6)]
    ident = e.int('id', 0, 0xFFFFFFFF)
    unks = [e.int(f'unk{i}', 0, 0xFFFFFFFF) for i in range(3)]
    d = ref.write(order, enc, ident, unks, list(zip(offs, infos)), body, swap=e.bool('swap'))
    b = bmg.BMG(d, id=5)
    e.check(b.endianness == order and b.encoding == enc, 'byte order and encoding')
    e.check_eq(b.id, ident, 'ID')
    e.check_eq([b.unk14, b.unk18, b.unk1C], unks, 'header values')
    e.check(len(b.messages) == 6, 'number of messages')
    for i in range(6):
        same(e, b.messages[i], wants[i], infos[i], i == 4, f'message {i}')
    g = bmg.BMG(b.save())
    for i in range(6):
        same(e, g.messages[i], wants[i], infos[i], i == 4, f'message {i} after saving')


def bad(e, enc, order):
    s = e.str('s', 2, 0, 0x7F)
    isbad = e.any([ord(s[0]) == 0, ord(s[1]) == 0, ord(s[0]) == 0x1A, ord(s[1]) == 0x1A])
    b = bmg.BMG.fromMessages([bmg.Message(b'', [bmg.Message.Escape(1, b'\0\x1A'), s])])
    b.encoding, b.endianness = enc, order
    r = e.raises(ValueError, b.save) is not None
    e.check(r == isbad, 'texts with NUL or 1A are rejected, others are not')


def infolen(e):
    lens = [e.pick(f'n{i}', 0, 2) for i in range(e.choice('n', [2, 3]))]
    b = bmg.BMG.fromMessages([bmg.Message(e.bytes(f'b{i}', n), [], e.bool(f'null{i}')) for i, n in enumerate(lens)])
    r = e.raises(ValueError, b.save) is not None
    e.check(r == (len(set(lens)) > 1), 'info of different lengths is rejected')


def magic(e):
    d = e.bytes('m', 8) + bmg.BMG().save()[8:]
    r = e.raises(ValueError, bmg.BMG, d) is not None
    e.check(r == (d[:8] != b'MESGbmg1'), 'other files are rejected')


def encoding(e):
    d = bytearray(bmg.BMG().save())
    d[16] = e.int('enc', 0, 255)
    r = e.raises(ValueError, bmg.BMG, bytes(d)) is not None
    e.check(r == ((1 <= d[16] <= 4) == False), 'unknown encodings are rejected')


def fullenc(e):
    b = bmg.BMG()
    enc, order = e.choice('enc', ENCS)
    b.encoding, b.endianness = enc, order
    want = enc if enc != 'utf-16' else 'utf-16le' if order == '<' else 'utf-16be'
    e.check_eq(b.fullEncoding, want, 'full encoding')
    b.encoding = e.choice('bad', ['latin-1', 'utf-32', None, 'UTF-7'])
    e.check(e.raises(ValueError, b.save), 'unknown encodings are rejected')
