"""R03: ROM checksums and cartridge capacity."""

import ndspy.fnt as fnt
import ndspy.rom as rom
from refs import fntref, romgen, romref
from refs.bin import u16

ASSUMPTIONS = [
    'checksum cases: up to 16 bytes of the header are free at a time, the others are fixed',
    'capacity cases: total sizes up to 512 MB, the largest the header can express a ROM for']


def cases(tier):
    q = tier == 'quick'
    names = [n for n, _, _ in romref.INTS]
    step = 3 if q else 6
    for i in range(0, len(names), step):
        yield dict(name=f'crc-{names[i]}', fn='checksum', args={'ints': names[i:i + step]},
                   bounds=f'header checksum, any values of {names[i:i + step]}')
    for n, _, s in romref.RAW:
        yield dict(name=f'crc-{n}', fn='checksum', args={'ints': [], 'raw': n},
                   bounds=f'header checksum, any values of {min(s, 12)} bytes of {n}')
    yield dict(name='crc-name', fn='checksum', args={'ints': [], 'name': 12}, bounds='header checksum, any name')
    for part in ('arm9', 'arm7', 'file', 'debug'):
        yield dict(name=f'crc-size-{part}', fn='sizes', args={'part': part},
                   bounds=f'header checksum, any length 0..70000 of {part}')
    for at in (0, 50, 144):
        yield dict(name=f'logo{at}', fn='logo', args={'at': at}, bounds=f'any values of 12 bytes of the logo at {at}')
    for lo, hi in ((0, 1 << 17), (1 << 17, 1 << 21), (1 << 21, 1 << 25), (1 << 25, 1 << 29)):
        yield dict(name=f'capacity{hi}', fn='capacity', args={'lo': lo, 'hi': hi},
                   bounds=f'a file of any length {lo}..{hi}')
    yield dict(name='keep', fn='keep', bounds='device capacity left alone unless asked for')


def crcs(e, d):
    e.check_eq(u16(d, 0x15E), romref.crc(d[0:0x15E]), 'header checksum')
    e.check_eq(u16(d, 0x15C), romref.crc(d[0xC0:0x15C]), 'logo checksum')


def checksum(e, ints, raw=None, name=0):
    fields = {}
    for n, _, s in romref.INTS:
        if n in ints:
            fields[n] = e.int(n, 0, 256 ** s - 1)
    for n, _, s in romref.RAW:
        if n == raw:
            k = min(s, 12)
            fields[n] = bytes(range(s - k)) + e.bytes(n, k)
    p = romgen.parts(e, 'files', ())
    d = romgen.make(rom, fnt, fntref, p, fields, e.bytes('name', name)).save()
    crcs(e, d)


def sizes(e, part):
    p = romgen.parts(e, 'full', ())
    if part == 'file':
        p['files'][1] = e.blob('x', 0, 70000)
    else:
        p[part] = e.blob('x', 1, 70000)
        e.assume(p['arm7'][:4] != romgen.POST)
    d = romgen.make(rom, fnt, fntref, p, None, b'NAME').save()
    crcs(e, d)


def logo(e, at):
    lg = bytes(range(at)) + e.bytes('logo', 12) + bytes(0x9C - 12 - at)
    p = romgen.parts(e, 'files', ())
    d = romgen.make(rom, fnt, fntref, p, {'nintendoLogo': lg}, b'NAME').save()
    crcs(e, d)


def capacity(e, lo, hi):
    r = rom.NintendoDSRom()
    r.files = [e.blob('f', lo, hi)]
    r.rsaSignature = e.bytes('rsa', 0x88)
    d = r.save(updateDeviceCapacity=True)
    n = len(d)
    e.assume(n <= 1 << 29)
    c = d[0x14]
    cap = 0x20000 << c if isinstance(c, int) and not e.symbolic else e.concrete(c)
    if e.symbolic:
        cap = 0x20000 << cap
    e.check(cap >= n, 'the capacity holds the ROM')
    e.check(cap == 0x20000 or cap // 2 < n, 'no smaller capacity holds the ROM')
    e.check_eq(r.deviceCapacity, c, 'the object is updated as well')
    e.check_eq(u16(d, 0x15E), romref.crc(d[0:0x15E]), 'header checksum')


def keep(e):
    r = rom.NintendoDSRom()
    r.files = [e.blob('f', 0, 1 << 22)]
    r.deviceCapacity = e.int('c', 0, 255)
    want = r.deviceCapacity
    d = r.save()
    e.check_eq(d[0x14], want, 'device capacity is kept')
    e.check_eq(r.deviceCapacity, want, 'and the object is not changed')
