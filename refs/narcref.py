"""Independent NARC reader and writer."""

from refs.bin import u16, u32, p16, p32
from refs import fntref


def read(e, d):
    """Strict reader: (byte order of the beginning, files, tree of names as bytes)."""
    e.check_eq(d[0:4], b'NARC', 'magic')
    if d[4] == 0xFF:
        order = '<'
        e.check_eq(d[4:8], b'\xff\xfe\x01\x00', 'byte-order mark and version')
    else:
        order = '>'
        e.check_eq(d[4:8], b'\xfe\xff\x00\x01', 'byte-order mark and version')
    e.check_eq(u32(d, 8), len(d), 'file size field')
    e.check_eq(u16(d, 12), 0x10, 'header size field')
    e.check_eq(u16(d, 14), 3, 'number of blocks')
    e.check_eq(d[0x10:0x14], b'BTAF', 'FATB magic')
    fatb = u32(d, 0x14)
    n = e.concrete(u32(d, 0x18))
    e.check_eq(fatb, 12 + 8 * n, 'FATB size')
    o = 0x10 + fatb
    e.check_eq(d[o:o + 4], b'BTNF', 'FNTB magic')
    fntb = u32(d, o + 4)
    e.check_eq(fntb % 4, 0, 'FNTB size is aligned')
    g = o + fntb
    e.check_eq(d[g:g + 4], b'GMIF', 'FIMG magic')
    fimg = u32(d, g + 4)
    e.check_eq(g + fimg, len(d), 'blocks tile the file')
    e.check_eq(fimg % 4, 0, 'FIMG size is aligned')
    files = []
    prev = 0
    for i in range(n):
        a, b = u32(d, 0x1C + 8 * i), u32(d, 0x20 + 8 * i)
        e.check(prev <= a, 'files do not overlap')
        e.check(a <= b, 'file starts before it ends')
        e.check(b <= fimg - 8, 'file lies in the data block')
        e.check_eq(a % 4, 0, 'file start is aligned')
        prev = b
        files.append(d[g + 8 + a:g + 8 + b])
    return order, files, fntref.read(e, d[o + 8:o + fntb])


def write(files, tree, order='<', perm=None, gaps=None, fntpad=b''):
    """Files stored in the order perm, each followed by the given gap."""
    n = len(files)
    perm = list(range(n)) if perm is None else perm
    pos = [None] * n
    body = b''
    for i in perm:
        pos[i] = len(body)
        body = body + files[i] + (gaps[i] if gaps else b'')
    fat = b''.join(p32(pos[i]) + p32(pos[i] + len(files[i])) for i in range(n))
    names = fntref.write(tree) + fntpad
    blocks = b'BTAF' + p32(12 + len(fat)) + p32(n) + fat
    blocks = blocks + b'BTNF' + p32(8 + len(names)) + names
    blocks = blocks + b'GMIF' + p32(8 + len(body)) + body
    beg = b'\xff\xfe\x01\x00' if order == '<' else b'\xfe\xff\x00\x01'
    return b'NARC' + beg + p32(0x10 + len(blocks)) + p16(0x10) + p16(3) + blocks
