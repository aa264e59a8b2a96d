"""Independent BMG reader and writer."""

ENC = {'cp1252': 1, 'utf-16': 2, 'shift-jis': 3, 'utf-8': 4}


def full(enc, order):
    return enc if enc != 'utf-16' else ('utf-16-le' if order == '<' else 'utf-16-be')


def num(d, o, n, order):
    v = 0
    for i in range(n):
        v = v | d[o + i] << (8 * i if order == '<' else 8 * (n - 1 - i))
    return v


def pack(v, n, order):
    b = [v >> 8 * i & 255 for i in range(n)]
    return bytes(b if order == '<' else b[::-1])


def read(e, d, order, enc):
    """Strict reader of what save() makes: a dictionary of the raw parts."""
    e.check_eq(d[0:8], b'MESGbmg1', 'magic')
    e.check_eq(num(d, 8, 4, order), (len(d) + 31) // 32 * 32, 'file size field')
    n = e.concrete(num(d, 12, 4, order))
    e.check_eq(d[16], ENC[enc], 'encoding field')
    out = {'unks': [num(d, 17 + 4 * i, 4, order) for i in range(3)], 'magics': [],
           'instructions': [], 'labels': [], 'scripts': []}
    o = 32
    for i in range(n):
        magic = bytes(d[o:o + 4])
        size = num(d, o + 4, 4, order)
        e.check_eq(size % 32, 0, 'section size is aligned')
        out['magics'].append(magic)
        count, second = num(d, o + 8, 2, order), num(d, o + 10, 2, order)
        if magic == b'INF1':
            count = e.concrete(count)
            out['id'] = num(d, o + 12, 4, order)
            e.check(size >= 16 + count * second, 'INF1 holds its entries')
            out['info'] = []
            for j in range(count):
                p = o + 16 + j * second
                out['info'].append((num(d, p, 4, order), d[p + 4:p + second]))
        elif magic == b'DAT1':
            out['text'] = d[o + 8:o + size]
        elif magic == b'FLW1':
            count, second = e.concrete(count), e.concrete(second)
            e.check_eq(d[o + 12:o + 16], bytes(4), 'reserved word')
            e.check(size >= 16 + 8 * count + 3 * second, 'FLW1 holds its entries')
            p = o + 16
            out['instructions'] = [d[p + 8 * j:p + 8 * j + 8] for j in range(count)]
            p += 8 * count
            out['labels'] = [(d[p + 2 * second + j], num(d, p + 2 * j, 2, order)) for j in range(second)]
        elif magic == b'FLI1':
            count = e.concrete(count)
            e.check_eq(second, 8, 'FLI1 entry size')
            e.check_eq(d[o + 12:o + 16], bytes(4), 'reserved word')
            out['scripts'] = []
            for j in range(count):
                p = o + 16 + 8 * j
                e.check_eq(d[p + 6:p + 8], bytes(2), 'script padding')
                out['scripts'].append((num(d, p, 4, order), num(d, p + 4, 2, order)))
        else:
            e.fail('unknown section')
        o = o + size
    e.check_eq(o, (len(d) + 31) // 32 * 32, 'sections tile the file')
    return out


def escape(enc, order, typ, data):
    start = '\x1A'.encode(full(enc, order))
    return start + bytes([len(start) + 2 + len(data), typ]) + data


def write(order, enc, ident, unks, entries, text, insts=None, labels=None, scripts=None, swap=False):
    """entries: (offset, info) pairs; text: the contents of DAT1."""
    def sec(magic, body):
        body = body + bytes(-(len(body) + 8) % 32)
        return magic + pack(len(body) + 8, 4, order) + body
    size = 4 + (len(entries[0][1]) if entries else 0)
    inf = pack(len(entries), 2, order) + pack(size, 2, order) + pack(ident, 4, order)
    for off, info in entries:
        inf = inf + pack(off, 4, order) + info
    secs = [sec(b'INF1', inf), sec(b'DAT1', text)]
    if insts is not None:
        flw = pack(len(insts), 2, order) + pack(len(labels), 2, order) + bytes(4)
        for i in insts:
            flw = flw + i
        for bmg, index in labels:
            flw = flw + pack(index, 2, order)
        for bmg, index in labels:
            flw = flw + pack(bmg, 1, order)
        secs.append(sec(b'FLW1', flw))
    if scripts is not None:
        fli = pack(len(scripts), 2, order) + pack(8, 2, order) + bytes(4)
        for ident2, index in scripts:
            fli = fli + pack(ident2, 4, order) + pack(index, 2, order) + bytes(2)
        secs.append(sec(b'FLI1', fli))
    if swap:
        secs = secs[::-1]
    body = b''
    for s in secs:
        body = body + s
    head = b'MESGbmg1' + pack(32 + len(body), 4, order) + pack(len(secs), 4, order) + bytes([ENC[enc]])
    for u in unks:
        head = head + pack(u, 4, order)
    return head + bytes(3) + body
