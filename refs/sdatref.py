"""Independent reader and writer of sound archives.

An archive is a dictionary of lists of (name or None, entry or None):
  seq      [unk02, bank, volume, channel pressure, polyphonic, player, file]
  ssar     [unk02, [names of the sequences], file]
  bank     [unk02, [wave archives, None for none], file]
  swar     [unk02, file]
  player   [max sequences, channel mask, heap size]
  group    [[type, options, id], ...]
  splayer  [channel, ...]
  strm     [unk02, volume, priority, player, unk07, file]
Files are bytes, or numbers of files if a file list is given."""

from refs.bin import u16, u32, p8, p16, p32, align

PARTS = ['seq', 'ssar', 'bank', 'swar', 'player', 'group', 'splayer', 'strm']
FILES = {'seq': 6, 'ssar': 2, 'bank': 2, 'swar': 1, 'strm': 5}


def cstring(e, d, o, end, what):
    s = []
    while True:
        e.check(o < end, what + ': string ends inside its block')
        c = d[o]
        if c == 0:
            return s
        s.append(c)
        o += 1


def chars(name):
    return None if name is None else [ord(c) for c in name]


def read(e, d, al=0x20, first=None, padded=False, end=True, padsymb=False, exact=True):
    """Checks the layout of the file; gives the archive (names as lists of
    character codes, files as numbers) and the list of files."""
    w = 'sound archive'
    e.check_eq(d[0:4], b'SDAT', w + ': magic')
    e.check_eq(u16(d, 4), 0xFEFF, w + ': byte-order mark')
    e.check_eq(u16(d, 6), 0x100, w + ': version')
    e.check_eq(u32(d, 8), len(d), w + ': file size field')
    e.check_eq(u16(d, 12), 0x40, w + ': header size field')
    b = [e.concrete(u32(d, 0x10 + 4 * i)) for i in range(8)]
    so, ss, io, isz, fo, fs, do, ds = b
    e.check(u16(d, 14) == (4 if so else 3), w + ': number of blocks')
    e.check_eq(d[0x30:0x40], bytes(16), w + ': rest of the header')
    at = 0x40
    if so:
        e.check(so == at, w + ': symbol block follows the header')
        e.check_eq(d[so:so + 4], b'SYMB', w + ': symbol block magic')
        e.check(u32(d, so + 4) == align(ss, 4), w + ': symbol block size')
        if padsymb:
            e.check(ss % 4 == 0, w + ': symbol size is padded')
        at = align(so + ss, 4)
    else:
        e.check(ss == 0, w + ': size of the missing symbol block')
    e.check(io == at, w + ': info block position')
    e.check_eq(d[io:io + 4], b'INFO', w + ': info block magic')
    e.check(u32(d, io + 4) == isz, w + ': info block size')
    e.check(fo == align(io + isz, 4), w + ': file table position')
    e.check_eq(d[fo:fo + 4], b'FAT ', w + ': file table magic')
    e.check(u32(d, fo + 4) == fs, w + ': file table size')
    e.check(do == align(fo + fs, 4), w + ': file block position')
    e.check_eq(d[do:do + 4], b'FILE', w + ': file block magic')
    e.check(u32(d, do + 4) == ds, w + ': file block size')
    e.check(do + ds == len(d), w + ': the file block is the last')
    n = e.concrete(u32(d, fo + 8))
    e.check(fs == 12 + 16 * n, w + ': number of files in the table')
    e.check(u32(d, do + 8) == n, w + ': number of files in the file block')

    files, pos = [], do + 12
    for i in range(n):
        o, l = e.concrete(u32(d, fo + 12 + 16 * i)), e.concrete(u32(d, fo + 16 + 16 * i))
        e.check_eq(d[fo + 20 + 16 * i:fo + 28 + 16 * i], bytes(8), w + ': rest of the table entry')
        if i == 0 and first is not None:
            pos = align(pos, first)
        e.check(o == align(pos, al), w + f': position of file {i}')
        e.check(o + l <= len(d), w + f': file {i} lies inside the archive')
        e.check_eq(d[pos:o], bytes(o - pos), w + ': padding')
        files.append(d[o:o + l])
        pos = o + l
    if first is not None and not n:
        pos = align(pos, first)
    if end:
        e.check(len(d) == align(pos, al), w + ': end of the archive')
    else:
        e.check(len(d) == pos, w + ': end of the archive, not padded')
    e.check_eq(d[pos:], bytes(max(0, len(d) - pos)), w + ': padding at the end')

    used = []

    def info(part):
        o = e.concrete(u32(d, io + 8 + 4 * part))
        e.check(0x40 <= o <= isz - 4, w + ': info list lies inside the block')
        c = e.concrete(u32(d, io + o))
        e.check(o + 4 + 4 * c <= isz, w + ': info list fits')
        used.append((o, o + 4 + 4 * c))
        return [e.concrete(u32(d, io + o + 4 + 4 * i)) for i in range(c)]

    def entry(o, size):
        e.check(0x40 <= o and o + size <= isz, w + ': info entry lies inside the block')
        e.check(o % 4 == 0 or size % 4 != 0 or exact is False, w + ': alignment of the entry')
        used.append((o, o + size))
        return io + o

    refs = []

    def file(o):
        k = e.concrete(u16(d, o))
        e.check(k < n, w + ': number of a file')
        refs.append(k)
        return k

    def symbols(part, nested=False):
        if not so:
            return None
        return symlist(e.concrete(u32(d, so + 8 + 4 * part)), nested)

    def symlist(o, nested):
        e.check(0x40 <= o <= ss - 4, w + ': symbol list lies inside the block')
        c = e.concrete(u32(d, so + o))
        e.check(o + 4 + 4 * c * (2 if nested else 1) <= ss, w + ': symbol list fits')
        out = []
        for i in range(c):
            p = o + 4 + (8 if nested else 4) * i
            s = e.concrete(u32(d, so + p))
            s = None if s == 0 else cstring(e, d, so + s, so + ss, w + ': symbol')
            if nested:
                q = e.concrete(u32(d, so + p + 4))
                s = (s, [] if q == 0 else symlist(q, False))
            out.append(s)
        return out

    a = {}
    for k, part in enumerate(PARTS):
        offs = info(k)
        syms = symbols(k, part == 'ssar')
        if syms is None:
            syms = [(None, None) if part == 'ssar' else None] * len(offs)
        e.check(len(syms) == len(offs), w + f': number of symbols of {part}')
        a[part] = []
        for s, o in zip(syms, offs):
            v = None
            sub = None
            if part == 'ssar':
                s, sub = s
            if o == 0:
                if sub is not None:
                    e.check(sub == [], w + ': no symbols inside an empty slot')
            elif part == 'seq':
                p = entry(o, 12)
                v = [u16(d, p + 2), u16(d, p + 4)] + [d[p + 6 + i] for i in range(4)] + [file(p)]
            elif part == 'ssar':
                p = entry(o, 4)
                v = [u16(d, p + 2), sub, file(p)]
            elif part == 'bank':
                p = entry(o, 12)
                ids = [u16(d, p + 4 + 2 * i) for i in range(4)]
                v = [u16(d, p + 2), ids, file(p)]
            elif part == 'swar':
                p = entry(o, 4)
                v = [u16(d, p + 2), file(p)]
            elif part == 'player':
                p = entry(o, 8)
                v = [u16(d, p), u16(d, p + 2), u32(d, p + 4)]
            elif part == 'group':
                c = e.concrete(u32(d, io + o))
                p = entry(o, 4 + 8 * c)
                v = [[d[p + 4 + 8 * i], u16(d, p + 5 + 8 * i), u32(d, p + 8 + 8 * i)] for i in range(c)]
                for i in range(c):
                    e.check_eq(d[p + 7 + 8 * i], 0, w + ': reserved byte of a group entry')
            elif part == 'splayer':
                p = entry(o, 24)
                c = e.concrete(d[p])
                e.check(c <= 16, w + ': number of channels')
                v = [d[p + 1 + i] for i in range(c)]
                for i in range(c, 16):
                    e.check_eq(d[p + 1 + i], 0xFF, w + ': unused channel')
            else:
                p = entry(o, 12)
                v = [u16(d, p + 2)] + [d[p + 4 + i] for i in range(4)] + [file(p)]
            a[part].append((s, v))
    used.sort()
    for x, y in zip(used, used[1:]):
        e.check(x[1] <= y[0], w + ': info entries do not overlap')
    for k in range(n):
        e.check(k in refs, w + ': every file is used')
    return a, files


def build(a, files, al=0x20, first=None, padded=False, end=True, symb=True, short=False, reverse=False, gap=0,
          padsymb=False, shareSymbols=False):
    """An archive in a layout of our own.  Names are lists of character
    codes."""
    s = b''
    so = ss = 0
    if symb:
        lists, table = [], b''
        # first the sizes
        size = 0x40
        offs = []
        for part in PARTS:
            n = count(a, part, short)
            offs.append(size)
            size += 4 + (8 if part == 'ssar' else 4) * n
        subs = {}
        for i in range(count(a, 'ssar', short)):
            v = a['ssar'][i][1]
            if v is not None and v[1] is not None:
                subs[i] = size
                size += 4 + 4 * len(v[1])
        strings, known = b'', []

        def add(name):
            nonlocal strings
            if name is None:
                return p32(0)
            if shareSymbols:
                for k, o in known:
                    if k == name:
                        return p32(o)
            o = size + len(strings)
            strings += bytes(name) + b'\0'
            known.append((name, o))
            return p32(o)
        for part in PARTS:
            n = count(a, part, short)
            table += p32(n)
            for i in range(n):
                table += add(a[part][i][0])
                if part == 'ssar':
                    table += p32(subs.get(i, 0))
        for i in sorted(subs):
            names = a['ssar'][i][1][1]
            table += p32(len(names))
            for x in names:
                table += add(x)
        head = b''
        for o in offs:
            head += p32(o)
        ss = size + len(strings)
        so = 0x40
        s = b'SYMB' + p32(align(ss, 4)) + head + bytes(0x18) + table + strings + bytes(-ss % 4)
        if padsymb:
            ss = align(ss, 4)

    io = 0x40 + len(s)
    head, body = b'', b''
    for part in PARTS:
        lst = a[part]
        head += p32(0x40 + len(body))
        ents = [None] * len(lst)
        at = 0x40 + len(body) + 4 + 4 * len(lst)
        eb = b''
        for i in reversed(range(len(lst))) if reverse else range(len(lst)):
            v = lst[i][1]
            if v is None:
                continue
            ents[i] = at + len(eb)
            if part == 'seq':
                x = p16(v[6]) + p16(v[0]) + p16(v[1]) + p8(v[2]) + p8(v[3]) + p8(v[4]) + p8(v[5]) + bytes(2)
            elif part == 'ssar':
                x = p16(v[2]) + p16(v[0])
            elif part == 'bank':
                x = p16(v[2]) + p16(v[0])
                for k in range(4):
                    x += p16(v[1][k])
            elif part == 'swar':
                x = p16(v[1]) + p16(v[0])
            elif part == 'player':
                x = p16(v[0]) + p16(v[1]) + p32(v[2])
            elif part == 'group':
                x = p32(len(v))
                for t, o, k in v:
                    x += p8(t) + p16(o) + b'\0' + p32(k)
            elif part == 'splayer':
                x = p8(len(v))
                for c in v:
                    x += p8(c)
                x += b'\xff' * (16 - len(v)) + bytes(7)
            else:
                x = p16(v[5]) + p16(v[0])
                for k in range(1, 5):
                    x += p8(v[k])
                x += bytes(4)
            eb += x
        body += p32(len(lst))
        for o in ents:
            body += p32(o or 0)
        body += eb
    info = b'INFO' + p32(0x40 + len(body)) + head + bytes(0x18) + body

    fo = io + len(info)
    do = fo + 12 + 16 * len(files)
    fat, data = b'', b''
    pos = do + 12
    for i, f in enumerate(files):
        new = align(align(pos, first) if first and i == 0 else pos, al)
        if i:
            new += gap
        data += bytes(new - pos)
        pos = new
        l = align(len(f), al) if padded else len(f)
        fat += p32(pos) + p32(l) + bytes(8)
        data += f
        pos += len(f)
    if end:
        data += bytes(align(pos, al) - pos)
    size = do + 12 + len(data)
    return (b'SDAT' + p16(0xFEFF) + p16(0x100) + p32(size) + p16(0x40) + p16(4 if symb else 3)
            + p32(so) + p32(ss) + p32(io) + p32(len(info)) + p32(fo) + p32(12 + len(fat)) + p32(do) + p32(12 + len(data))
            + bytes(16) + s + info + b'FAT ' + p32(12 + len(fat)) + p32(len(files)) + fat
            + b'FILE' + p32(12 + len(data)) + p32(len(files)) + data)


def count(a, part, short):
    n = len(a[part])
    return n // 2 if short else n
