"""Little helpers to read and build binary files."""


def u8(d, o):
    return d[o]


def u16(d, o):
    return d[o] | d[o + 1] << 8


def u24(d, o):
    return d[o] | d[o + 1] << 8 | d[o + 2] << 16


def u32(d, o):
    return d[o] | d[o + 1] << 8 | d[o + 2] << 16 | d[o + 3] << 24


def p8(v):
    return bytes([v & 255])


def p16(v):
    return bytes([v & 255, v >> 8 & 255])


def p32(v):
    return bytes([v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24 & 255])


def align(n, a):
    return (n + a - 1) // a * a


def header(e, d, magic, nblocks, version=1, what='file'):
    """Standard header of DS files: magic, BOM, version, size, 0x10, blocks."""
    e.check_eq(d[0:4], magic, what + ': magic')
    e.check_eq(u16(d, 4), 0xFEFF, what + ': byte-order mark')
    if version is not None:
        e.check_eq(u16(d, 6), version, what + ': version')
    e.check_eq(u32(d, 8), len(d), what + ': file size field')
    e.check_eq(u16(d, 12), 0x10, what + ': header size field')
    if nblocks is not None:
        e.check_eq(u16(d, 14), nblocks, what + ': number of blocks')


def mkheader(magic, size, nblocks, version=1):
    return magic + p16(0xFEFF) + p16(version) + p32(size) + p16(0x10) + p16(nblocks)
