"""R02: saved ROMs are laid out correctly, and loading follows the header."""

import ndspy.fnt as fnt
import ndspy.rom as rom
from refs import fntref, romgen, romref
from refs.bin import u32

ASSUMPTIONS = [
    'parts of any length have opaque contents; other parts have fixed lengths around the alignment and any contents',
    'ROMs from other tools: header of 0x4000 bytes followed by all parts in the orders listed, with any gaps']

ORDERS = {
    'std': ['arm9', 'ovt9', 0, 'arm7', 'ovt7', 'fnt', 'fat', 'banner', 'debug', 1, 2],
    'rev': [2, 1, 'debug', 'banner', 'fat', 'fnt', 'ovt7', 'arm7', 0, 'ovt9', 'arm9'],
    'mix': ['fat', 1, 'arm7', 'banner', 2, 'ovt9', 'arm9', 'fnt', 0, 'debug', 'ovt7'],
}


def cases(tier):
    q = tier == 'quick'
    for cfg in romgen.CONFIGS:
        for big in romgen.biggroups(cfg):
            yield dict(name=f'{cfg}-{",".join(map(str, big))}', fn='layout',
                       args={'cfg': cfg, 'big': list(big), 'lim': 70000 if q else 1 << 24},
                       bounds=f'parts of {cfg}: {romgen.CONFIGS[cfg]}, any length up to '
                              f'{70000 if q else 1 << 24} of {big}')
    yield dict(name='header', fn='header', bounds='all values of all header fields')
    for o in ORDERS:
        for big in (['arm9', 'arm7'], [0, 1], ['debug', 2], ['gap']):
            yield dict(name=f'foreign-{o}-{big[0]}', fn='foreign', args={'order': o, 'big': big},
                       bounds=f'ROMs with parts in order {ORDERS[o]}, any length of {big}')


def layout(e, cfg, big, lim):
    p = romgen.parts(e, cfg, big, lim)
    d = romgen.make(rom, fnt, fntref, p, None, b'NAME').save()
    verify(e, d, p)


def verify(e, d, p):
    r = romref.ranges(e, d)
    e.check(len(r) == 7 + len(p['files']), 'the allocation table lists every file')
    e.check_eq(u32(d, 0x84), 0x4000, 'header size')
    for k, want in (('arm9', p['arm9']), ('arm7', p['arm7']), ('ovt9', p['ovt9']), ('ovt7', p['ovt7']),
                    ('debug', p['debug'])):
        e.check_eq(romref.cut(d, r[k]), want, f'bytes of {k}')
        e.check_eq(r[k][1], len(want), f'size of {k}')
    e.check_eq(d[r['arm9'][0] + r['arm9'][1]:][:len(p['post'])], p['post'], 'post data follows the ARM9 code')
    for i, f in enumerate(p['files']):
        e.check_eq(romref.cut(d, r[i]), f, f'bytes of file {i}')
        e.check_eq(r[i][1], len(f), f'size of file {i}')
    e.check_eq(fntref.read(e, romref.cut(d, r['fnt'])), fntref.encoded(p['tree']), 'filename table')
    b = u32(d, 0x68)
    if p['banner']:
        r['banner'] = (b, len(p['banner']))
        e.check_eq(romref.cut(d, r['banner']), p['banner'], 'icon/banner')
    else:
        e.check_eq(b, 0, 'no icon/banner')
    sig = u32(d, 0x80)
    if p['rsa']:
        r['rsa'] = (sig, len(p['rsa']))
        e.check_eq(romref.cut(d, r['rsa']), p['rsa'], 'RSA signature')
        e.check_eq(u32(d, 0x1000), sig, 'copy of the position of the signature')
    e.check_eq(r['arm9'][0] % 0x4000, 0, 'ARM9 code starts behind the header')
    e.check_eq(len(d) % 0x400, 0, 'total size')
    keys = [k for k in r if k != 'arm9']
    for k in keys:
        if k in ('ovt9', 'ovt7', 'debug') and not p[k]:
            continue
        if k != 'rsa':
            e.check_eq(r[k][0] % 0x200, 0, f'{k} is aligned')
        e.check(r[k][0] >= 0x4000, f'{k} lies behind the header')
        e.check(r[k][0] + r[k][1] <= len(d), f'{k} lies in the file')
        # the post data belongs to the ARM9 code
        a = (r['arm9'][0], r['arm9'][1] + len(p['post']))
        e.check(apart(e, r[k], a), f'{k} does not overlap arm9')
        for j in keys:
            if str(j) < str(k):
                e.check(apart(e, r[k], r[j]), f'{k} does not overlap {j}')


def apart(e, a, b):
    return e.any([a[1] == 0, b[1] == 0, a[0] + a[1] <= b[0], b[0] + b[1] <= a[0]])


def header(e):
    fields = romgen.fields(e)
    p = romgen.parts(e, 'files', ())
    d = romgen.make(rom, fnt, fntref, p, fields, b'ABCDEFGHIJKL').save()
    for n, off, size in romref.INTS:
        e.check_eq(romref.num(d, off, size), fields[n], f'{n} at {off:#x}')
    for n, off, size in romref.RAW:
        e.check_eq(d[off:off + size], fields[n], f'{n} at {off:#x}')
    e.check_eq(d[0:12], b'ABCDEFGHIJKL', 'name')
    verify(e, d, p)


def foreign(e, order, big):
    p = {'arm9': b'9' * 5, 'arm7': b'7' * 9, 'debug': b'debug'}
    for k in ('arm9', 'arm7', 'debug'):
        p[k] = e.blob(k, 1, 5000) if k in big else e.bytes(k, 6)
    e.assume(p['arm7'][:4] != romgen.POST)
    for i in range(3):
        p[i] = e.blob(f'f{i}', 0, 5000) if i in big else e.bytes(f'f{i}', i * 2)
    p['ovt9'] = e.bytes('ovt9', 32)
    p['ovt7'] = e.bytes('ovt7', 32)
    ver = e.choice('ver', [1, 2, 3, 0x103])
    p['banner'] = romref.p16(ver) + e.bytes('banner', 8) + bytes(romref.BANNERS[ver] - 10)
    tree = (1, ['q'], [('d', (0, ['r', 's'], []))])
    p['fnt'] = fntref.write(tree)
    gaps = {k: b'\xFF' * 4 for k in ORDERS[order]}
    if 'gap' in big:
        for k in ('arm7', 'fnt', 1):
            gaps[k] = b'\xFF' + e.blob(f'gap{k}', 0, 300)
    fields = {'arm9EntryAddress': e.int('entry', 0, 0xFFFFFFFF), 'region': e.int('region', 0, 255),
              'nintendoLogo': e.bytes('logo', 0x9C)}
    d, pos = romref.build(e, p, fields, b'GAME', ORDERS[order], gaps)
    d = d + b'\xFF' * 16
    m = rom.NintendoDSRom(d)
    for k, v in fields.items():
        e.check_eq(getattr(m, k), v, k)
    for k, a in (('arm9', 'arm9'), ('arm7', 'arm7'), ('ovt9', 'arm9OverlayTable'), ('ovt7', 'arm7OverlayTable'),
                 ('banner', 'iconBanner'), ('debug', 'debugRom')):
        e.check_eq(getattr(m, a), p[k], a)
    e.check_eq(fntref.of(m.filenames), tree, 'filenames')
    e.check(len(m.files) == 3, 'number of files')
    for i in range(3):
        e.check_eq(m.files[i], p[i], f'file {i}')
    e.check_eq(m.arm9PostData, b'', 'no post data')
