"""Filename tables: independent reader, writer, and tree shapes.

A tree is (first ID, [file name, ...], [(folder name, tree), ...])."""


def u16(d, o):
    return d[o] | d[o + 1] << 8


def u32(d, o):
    return d[o] | d[o + 1] << 8 | d[o + 2] << 16 | d[o + 3] << 24


def read(e, d):
    """Strict reader."""
    nfolders = e.concrete(u16(d, 6))
    e.check(nfolders >= 1, 'root entry holds the number of folders')
    e.check(len(d) >= 8 * nfolders, 'folder table fits')
    seen = set()

    def folder(fid, parent):
        e.check(0xF000 <= fid < 0xF000 + nfolders, 'folder ID in range')
        e.check(fid not in seen, 'folder ID used once')
        seen.add(fid)
        o = 8 * (fid & 0xFFF)
        if parent is not None:
            e.check_eq(u16(d, o + 6), parent, 'parent folder ID')
        first = u16(d, o + 4)
        p = e.concrete(u32(d, o))
        e.check(8 * nfolders <= p < len(d), 'entries lie behind the folder table')
        files, folders = [], []
        while True:
            c = e.concrete(d[p])
            p += 1
            if c == 0:
                break
            n = c & 0x7F
            e.check(n > 0, 'names are not empty')
            name = d[p:p + n]
            p += n
            if c & 0x80:
                sub = e.concrete(u16(d, p))
                p += 2
                folders.append((name, folder(sub, fid)))
            else:
                e.check(not folders, 'files come before folders')
                files.append(name)
        return (first, files, folders)

    t = folder(0xF000, None)
    e.check(len(seen) == nfolders, 'all folders are reachable')
    return t


def encoded(t):
    """The tree with its names as bytes."""
    return (t[0], [n.encode('latin-1') for n in t[1]],
            [(n.encode('latin-1'), encoded(s)) for n, s in t[2]])


def of(folder):
    return (folder.firstID, list(folder.files), [(n, of(s)) for n, s in folder.folders])


def make(fnt, t):
    return fnt.Folder([(n, make(fnt, s)) for n, s in t[2]], list(t[1]), t[0])


def write(t, order=None):
    """A table for the tree, with the folder IDs in the given order of a
    preorder walk and the entry lists stored in reverse."""
    nodes = []

    def walk(x, parent):
        i = len(nodes)
        nodes.append([x, parent, []])
        for n, s in x[2]:
            nodes[i][2].append(walk(s, i))
        return i
    walk(t, None)
    k = len(nodes)
    ids = list(order) if order else list(range(k))
    head = [None] * k
    pos = 8 * k
    body = b''
    for i in reversed(range(k)):
        x, parent, subs = nodes[i]
        head[ids[i]] = (pos + len(body), x[0], k if parent is None else 0xF000 + ids[parent])
        for n in x[1]:
            body += bytes([len(n)]) + n.encode('latin-1')
        for (n, _), j in zip(x[2], subs):
            fid = 0xF000 + ids[j]
            body += bytes([0x80 | len(n)]) + n.encode('latin-1') + bytes([fid & 255, fid >> 8])
        body += b'\0'
    out = b''
    for off, first, par in head:
        out += bytes([off & 255, off >> 8 & 255, off >> 16 & 255, 0,
                      first & 255, first >> 8, par & 255, par >> 8])
    return out + body


def shapes(n):
    """All ordered trees with n nodes, as nested tuples of children."""
    if n == 1:
        return [()]

    def forests(m):
        if m == 0:
            return [()]
        out = []
        for k in range(1, m + 1):
            for t in shapes(k):
                for rest in forests(m - k):
                    out.append((t,) + rest)
        return out
    return forests(n - 1)


def tree(e, shape, nfiles, nlen, lo=1, hi=255, exclude='', first=None):
    """A tree of the given shape with free names.  nfiles: files per folder
    in preorder; nlen: lengths of the names, used in rotation."""
    state = [0, 0]

    def nm():
        i = state[1]
        state[1] += 1
        return e.str(f'name{i}', nlen[i % len(nlen)], lo, hi, exclude)

    def go(s):
        i = state[0]
        state[0] += 1
        fid = e.int(f'first{i}', 0, 0xFFFF) if first is None else first[i]
        files = [nm() for _ in range(nfiles[i % len(nfiles)])]
        return (fid, files, [(nm(), go(c)) for c in s])
    return go(shape)
