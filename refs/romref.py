"""Nintendo DS ROMs: independent reader of the header and its parts, and a builder."""

from refs.bin import u8, u16, u32, p16, p32, p8

INTS = [('unitCode', 0x12, 1), ('encryptionSeedSelect', 0x13, 1), ('deviceCapacity', 0x14, 1),
        ('pad015', 0x15, 1), ('pad016', 0x16, 1), ('pad017', 0x17, 1), ('pad018', 0x18, 1),
        ('pad019', 0x19, 1), ('pad01A', 0x1A, 1), ('pad01B', 0x1B, 1), ('pad01C', 0x1C, 1),
        ('region', 0x1D, 1), ('version', 0x1E, 1), ('autostart', 0x1F, 1),
        ('arm9EntryAddress', 0x24, 4), ('arm9RamAddress', 0x28, 4),
        ('arm7EntryAddress', 0x34, 4), ('arm7RamAddress', 0x38, 4),
        ('normalCardControlRegisterSettings', 0x60, 4),
        ('secureCardControlRegisterSettings', 0x64, 4),
        ('secureAreaChecksum', 0x6C, 2), ('secureTransferDelay', 0x6E, 2),
        ('arm9CodeSettingsPointerAddress', 0x70, 4), ('arm7CodeSettingsPointerAddress', 0x74, 4),
        ('debugRomAddress', 0x168, 4)]
RAW = [('idCode', 0x0C, 4), ('developerCode', 0x10, 2), ('secureAreaDisable', 0x78, 8),
       ('pad088', 0x88, 0x38), ('nintendoLogo', 0xC0, 0x9C), ('pad16C', 0x16C, 0x94)]
BANNERS = {1: 0x840, 2: 0x940, 3: 0x1240, 0x103: 0x23C0}


def num(d, off, size):
    return u8(d, off) if size == 1 else u16(d, off) if size == 2 else u32(d, off)


def put(v, size):
    return p8(v) if size == 1 else p16(v) if size == 2 else p32(v)


def crc(data):
    """CRC-16 of the ROM header, by polynomial division of the bit string."""
    c = 0xFFFF
    for b in data:
        for i in range(8):
            bit = (c ^ (b >> i)) & 1
            c = (c >> 1) ^ (0xA001 * bit)
    return c


def part(d, off, size):
    return u32(d, off), u32(d, size)


def ranges(e, d):
    """{part: (start, size)} from the header and the allocation table."""
    r = {'arm9': part(d, 0x20, 0x2C), 'arm7': part(d, 0x30, 0x3C), 'fnt': part(d, 0x40, 0x44),
         'fat': part(d, 0x48, 0x4C), 'ovt9': part(d, 0x50, 0x54), 'ovt7': part(d, 0x58, 0x5C),
         'debug': part(d, 0x160, 0x164)}
    n = e.concrete(r['fat'][1]) // 8
    fat = r['fat'][0]
    for i in range(n):
        a, b = u32(d, fat + 8 * i), u32(d, fat + 8 * i + 4)
        e.check(a <= b, f'file {i} starts before it ends')
        r[i] = (a, b - a)
    return r


def cut(d, r):
    return d[r[0]:r[0] + r[1]]


def build(e, parts, fields=None, name=b'TEST', order=(), gaps=None, head=0x4000):
    """A ROM with its parts laid out in the given order of keys, which are those
    of ranges() and 'banner'; gaps: bytes in front of each."""
    pos = {}
    cur = head
    nfiles = len([k for k in order if isinstance(k, int)])
    for k in order:
        g = gaps[k] if gaps and k in gaps else b''
        n = 8 * nfiles if k == 'fat' else len(parts[k])
        pos[k] = (cur + len(g), n)
        cur = cur + len(g) + n
    fat = b''
    for i in range(nfiles):
        fat = fat + p32(pos[i][0]) + p32(pos[i][0] + pos[i][1])
    body = b''
    for k in order:
        body = body + (gaps[k] if gaps and k in gaps else b'') + (fat if k == 'fat' else parts[k])
    h = bytearray(head)
    h[0:12] = name + bytes(12 - len(name))
    for nm, off, size in INTS:
        if fields and nm in fields:
            h[off:off + size] = put(fields[nm], size)
    for nm, off, size in RAW:
        if fields and nm in fields:
            h[off:off + size] = fields[nm]
    for k, off, size in (('arm9', 0x20, 0x2C), ('arm7', 0x30, 0x3C), ('fnt', 0x40, 0x44),
                         ('fat', 0x48, 0x4C), ('ovt9', 0x50, 0x54), ('ovt7', 0x58, 0x5C),
                         ('debug', 0x160, 0x164), ('banner', 0x68, None)):
        if k in pos:
            h[off:off + 4] = p32(pos[k][0])
            if size is not None:
                h[size:size + 4] = p32(pos[k][1])
    h[0x80:0x84] = p32(cur)
    h[0x84:0x88] = p32(0x4000)
    return bytes(h) + body, pos
