"""R01: ROMs survive saving and loading."""

import ndspy.fnt as fnt
import ndspy.rom as rom
from refs import fntref, romgen, romref

ASSUMPTIONS = [
    'parts of any length have opaque contents; other parts have fixed lengths around the alignment and any contents',
    'post data is a list of 12-byte records starting with 2106C0DE; ROM names do not end in NUL; '
    'the bytes that follow the post data do not look like another record',
    'padding behind the header, other than the 4 bytes at 0x1000 where the position of the '
    'signature is stored for the NSMBe editor, is kept if it fills up 0x4000 bytes']


def cases(tier):
    q = tier == 'quick'
    for cfg in romgen.CONFIGS:
        for big in romgen.biggroups(cfg):
            yield dict(name=f'{cfg}-{",".join(map(str, big))}', fn='roundtrip',
                       args={'cfg': cfg, 'big': list(big), 'lim': 70000 if q else 1 << 24},
                       bounds=f'parts of {cfg}: {romgen.CONFIGS[cfg]}, any length up to '
                              f'{70000 if q else 1 << 24} of {big}')
    yield dict(name='header', fn='header', bounds='all values of all header fields')
    for n in range(0, 13):
        yield dict(name=f'name{n}', fn='names', args={'n': n}, bounds=f'any name of {n} bytes')
    for n in (0x3E00, 0x7E00):
        yield dict(name=f'pad200-{n:x}', fn='pad200', args={'n': n}, bounds=f'{n} bytes behind the header')
    yield dict(name='norsa', fn='norsa', bounds='a ROM without a signature')
    for big in (('arm9', 'arm7'), (0, 1)):
        yield dict(name=f'unsigned-{big[0]}', fn='unsigned', args={'big': list(big)},
                   bounds=f'all other parts of a ROM without a signature, any length of {big}')
    yield dict(name='shared', fn='shared', bounds='overlays of both processors sharing files, any length')
    yield dict(name='manyfiles', fn='many', args={'n': 150}, bounds='150 files of 0..3 bytes')
    yield dict(name='byname', fn='byname', bounds='files read and replaced by name, any length')


def same(e, m, p, tree, rsa=True):
    e.check_eq(m.arm9, p['arm9'], 'ARM9 code')
    e.check_eq(m.arm9PostData, p['post'], 'ARM9 post data')
    e.check_eq(m.arm7, p['arm7'], 'ARM7 code')
    e.check_eq(m.arm9OverlayTable, p['ovt9'], 'ARM9 overlay table')
    e.check_eq(m.arm7OverlayTable, p['ovt7'], 'ARM7 overlay table')
    e.check_eq(m.iconBanner, p['banner'], 'icon/banner')
    e.check_eq(m.debugRom, p['debug'], 'debug ROM')
    if rsa:
        e.check_eq(m.rsaSignature, p['rsa'], 'RSA signature')
    e.check(len(m.files) == len(p['files']), 'number of files')
    for i, f in enumerate(p['files']):
        e.check_eq(m.files[i], f, f'file {i}')
    e.check_eq(fntref.of(m.filenames), tree, 'filenames')


def roundtrip(e, cfg, big, lim):
    p = romgen.parts(e, cfg, big, lim)
    fields = {'arm9RamAddress': e.int('ram9', 0, 0xFFFFFFFF), 'debugRomAddress': e.int('dbg', 0, 0xFFFFFFFF)}
    r = romgen.make(rom, fnt, fntref, p, fields, b'NAME')
    d = r.save()
    m = rom.NintendoDSRom(d)
    same(e, m, p, p['tree'])
    for k, v in fields.items():
        e.check_eq(getattr(m, k), v, k)
    e.check_eq(m.name, b'NAME', 'name')


def header(e):
    fields = romgen.fields(e)
    p = romgen.parts(e, 'files', ())
    r = romgen.make(rom, fnt, fntref, p, fields, b'X')
    m = rom.NintendoDSRom(r.save())
    for k, v in fields.items():
        e.check_eq(getattr(m, k), v, k)
    same(e, m, p, p['tree'])


def names(e, n):
    name = e.bytes('name', n)
    if n:
        e.assume(name[n - 1] != 0)
    p = romgen.parts(e, 'bare', ())
    m = rom.NintendoDSRom(romgen.make(rom, fnt, fntref, p, None, name).save())
    e.check_eq(m.name, name, 'name')


def pad200(e, n):
    p = romgen.parts(e, 'files', ('arm9',))
    pad = e.bytes('pad', n)
    r = romgen.make(rom, fnt, fntref, p, {'pad200': pad})
    m = rom.NintendoDSRom(r.save())
    e.check_eq(m.pad200[:0xE00], pad[:0xE00], 'padding behind the header')
    e.check_eq(m.pad200[0xE04:], pad[0xE04:], 'padding behind the header')
    same(e, m, p, p['tree'])


def norsa(e):
    p = romgen.parts(e, 'files', ())
    p['rsa'] = b''
    m = rom.NintendoDSRom(romgen.make(rom, fnt, fntref, p).save())
    e.check_eq(m.rsaSignature, b'', 'a missing RSA signature stays missing')


def unsigned(e, big):
    p = romgen.parts(e, 'ov9', big)
    p['rsa'] = b''
    m = rom.NintendoDSRom(romgen.make(rom, fnt, fntref, p).save())
    same(e, m, p, p['tree'], False)


def shared(e):
    p = romgen.parts(e, 'ov23', (1, 3))
    p['ovt7'] = b''.join(romgen.overlay(e, f'x{i}', i, f) for i, f in enumerate((3, 1, 3)))
    m = rom.NintendoDSRom(romgen.make(rom, fnt, fntref, p).save())
    same(e, m, p, p['tree'])


def many(e, n):
    p = romgen.parts(e, 'bare', ())
    p['files'] = [e.bytes(f'f{i}', i % 4) for i in range(n)]
    p['tree'] = (0, [f'n{i}' for i in range(n)], [])
    m = rom.NintendoDSRom(romgen.make(rom, fnt, fntref, p).save())
    same(e, m, p, p['tree'])


def byname(e):
    p = romgen.parts(e, 'full', (0, 1))
    r = romgen.make(rom, fnt, fntref, p)
    names = ['dir/f0', 'dir/f1', 'z.bin']
    i = e.pick('i', 0, 2)
    e.check_eq(r.getFileByName(names[i]), p['files'][i], 'getFileByName')
    new = e.blob('new', 0, 5000)
    r.setFileByName(names[i], new)
    p['files'][i] = new
    m = rom.NintendoDSRom(r.save())
    for j in range(3):
        e.check_eq(m.getFileByName(names[j]), p['files'][j], 'getFileByName')
    for bad in ('f0', 'dir', 'z', 'dir/z.bin'):
        e.check(e.raises(ValueError, m.getFileByName, bad) is not None, 'unknown names are refused')
        e.check(e.raises(ValueError, m.setFileByName, bad, b'') is not None, 'unknown names are refused')
