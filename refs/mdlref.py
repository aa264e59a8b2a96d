"""Builder of MDL0 blocks."""

from refs.bin import p8, p16, p32
from refs.texref import infoblock, name

PARAMS = {0: 0, 0x10: 1, 0x11: 0, 0x12: 1, 0x13: 1, 0x14: 1, 0x15: 0, 0x16: 16, 0x17: 12, 0x18: 16, 0x19: 12,
          0x1A: 9, 0x1B: 3, 0x1C: 3, 0x20: 1, 0x21: 1, 0x22: 1, 0x23: 2, 0x24: 1, 0x25: 1, 0x26: 1, 0x27: 1,
          0x28: 1, 0x29: 1, 0x2A: 1, 0x2B: 1, 0x30: 1, 0x31: 1, 0x32: 1, 0x33: 1, 0x34: 32, 0x40: 1, 0x41: 0,
          0x50: 1, 0x60: 1, 0x70: 3, 0x71: 2, 0x72: 3}


def model(e, key, mats, texs, pals, polys, cmds):
    """The data of one model: counts of materials, textures, palettes and
    polygons; cmds lists the commands of each polygon's display list."""
    head = e.bytes(key + 'h', 0x2C - 0)     # everything behind the five offsets
    bones = e.bytes(key + 'b', 12)
    matblk = infoblock([(b'm%d' % i, i, 2 * i, p32(0x100 + i)) for i in range(mats)], 4)
    texblk = infoblock([(b't%d' % i, i, 3, e.bytes(f'{key}t{i}', 3) + b'\0') for i in range(texs)], 4)
    palblk = infoblock([(b'p%d' % i, 4, i, e.bytes(f'{key}q{i}', 3) + b'\0') for i in range(pals)], 4)
    matsec = p32(0) + matblk + texblk + palblk + e.bytes(key + 'x', 20)
    defs = b''
    base = 16 + 24 * polys
    offs = []
    for i in range(polys):
        dl = b''
        cs = cmds[i % len(cmds)] if cmds else []
        for j in range(0, len(cs), 4):
            part = cs[j:j + 4]
            dl += bytes(part) + bytes(4 - len(part))
            for k, c in enumerate(part):
                dl += e.bytes(f'{key}d{i}_{j + k}', 4 * PARAMS.get(c, 0))
        offs.append(base + len(defs))
        defs += e.bytes(f'{key}u{i}', 8) + p32(16) + p32(len(dl)) + dl
    polyblk = infoblock([(b'y%d' % i, i, 1, p32(offs[i])) for i in range(polys)], 4)
    bo = 0x40
    mo = bo + len(bones)
    po = mo + len(matsec)
    end = po + len(polyblk) + len(defs)
    return p32(end) + p32(bo) + p32(mo) + p32(po) + p32(end) + head + bones + matsec + polyblk + defs


def mdl0(entries):
    """entries: (name bytes, unk00, unk02, model data)"""
    n = len(entries)
    off = 8 + 16 + 24 * n
    offs = []
    for _, _, _, d in entries:
        offs.append(off)
        off += len(d)
    blk = infoblock([(nm, a, b, p32(o)) for (nm, a, b, _), o in zip(entries, offs)], 4)
    body = blk + b''.join(d for _, _, _, d in entries)
    return b'MDL0' + p32(8 + len(body)) + body


def nsbmd(blocks, gap=0):
    out = b'BMD0\xff\xfe\2\0'
    off = 0x10 + 4 * len(blocks)
    offs, body = [], b''
    for b in blocks:
        offs.append(off + len(body))
        body += b + bytes(gap)
    return out + p32(off + len(body)) + p16(0x10) + p16(len(blocks)) + b''.join(p32(o) for o in offs) + body
