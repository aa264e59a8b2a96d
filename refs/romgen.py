"""ROM objects with symbolic contents."""

from refs import romref

CONFIGS = {
    # name: (post records, overlays of arm9, overlays of arm7, banner, debug ROM, files, rsa)
    'bare': (0, 0, 0, None, 0, 0, 1),
    'files': (0, 0, 0, None, 0, 2, 1),
    'post': (1, 0, 0, None, 0, 1, 1),
    'post2': (2, 1, 0, None, 0, 0, 1),
    'ov9': (1, 1, 0, None, 0, 1, 1),
    'ov97': (0, 1, 1, None, 0, 1, 1),
    'ov3': (0, 3, 0, None, 0, 0, 1),
    'ov03': (0, 0, 3, None, 0, 1, 1),
    'ov23': (1, 2, 3, None, 0, 1, 1),
    'banner1': (0, 0, 0, 1, 0, 1, 1),
    'banner2': (0, 0, 0, 2, 0, 1, 1),
    'banner3': (0, 0, 0, 3, 0, 1, 1),
    'banner103': (0, 1, 0, 0x103, 0, 0, 1),
    'debug': (0, 0, 0, None, 1, 1, 1),
    'debugov7': (1, 0, 1, 1, 1, 1, 1),
    'full': (1, 1, 1, 3, 1, 1, 1),
    'full2': (1, 2, 1, 1, 1, 2, 1),
}
POST = b'\x21\x06\xC0\xDE'


def overlay(e, name, ident, fid):
    """An overlay table entry with all other fields free."""
    return romref.p32(ident) + e.bytes(name + 'a', 20) + romref.p32(fid) + e.bytes(name + 'b', 4)


def parts(e, cfg, big=('arm9', 'arm7', 0), lim=70000):
    """The parts of a ROM; those named in big have any length up to lim."""
    post, n9, n7, banner, debug, nf, rsa = CONFIGS[cfg]
    small = [5, 0x200, 0, 0x1FF, 0x201]

    def data(k, n=[0]):
        if k in big:
            return e.blob(f'p{k}', 0, lim)
        n = small[(len(str(k)) + (k if isinstance(k, int) else 0)) % len(small)]
        return e.bytes(f'p{k}', n)
    p = {'arm9': data('arm9'), 'arm7': data('arm7')}
    # (a record found behind the ARM9 code is post data by definition)
    e.assume(p['arm7'][:4] != POST)
    p['post'] = b''.join(POST + e.bytes(f'post{i}', 8) for i in range(post))
    # overlay files come first, in descending order
    p['ovt9'] = b''.join(overlay(e, f'o9{i}', i, n9 - 1 - i) for i in range(n9))
    p['ovt7'] = b''.join(overlay(e, f'o7{i}', i, n9 + n7 - 1 - i) for i in range(n7))
    p['files'] = [data(i) for i in range(n9 + n7 + nf)]
    p['banner'] = b''
    if banner is not None:
        p['banner'] = romref.p16(banner) + e.bytes('banner', 0x20) + bytes(romref.BANNERS[banner] - 0x22)
    p['debug'] = (e.blob('debug', 1, lim) if 'debug' in big else e.bytes('debug', 3)) if debug else b''
    p['rsa'] = e.bytes('rsa', 0x88) if rsa else b''
    p['tree'] = (0, [], [])
    if p['files']:
        p['tree'] = (len(p['files']) - 1, ['z.bin'],
                     [('dir', (0, [f'f{i}' for i in range(len(p['files']) - 1)], []))])
    return p


def make(rom, fnt, fntref, p, fields=None, name=None):
    r = rom.NintendoDSRom()
    r.arm9, r.arm7, r.arm9PostData = p['arm9'], p['arm7'], p['post']
    r.arm9OverlayTable, r.arm7OverlayTable = p['ovt9'], p['ovt7']
    r.iconBanner, r.debugRom, r.rsaSignature = p['banner'], p['debug'], p['rsa']
    r.files = list(p['files'])
    r.filenames = fntref.make(fnt, p['tree'])
    if name is not None:
        r.name = name
    for k, v in (fields or {}).items():
        setattr(r, k, v)
    return r


def fields(e):
    out = {n: e.int(n, 0, 256 ** s - 1) for n, _, s in romref.INTS}
    out.update({n: e.bytes(n, s) for n, _, s in romref.RAW})
    return out


def biggroups(cfg):
    """Which parts have any length, a few at a time."""
    post, n9, n7, banner, debug, nf, rsa = CONFIGS[cfg]
    nfiles = n9 + n7 + nf
    g = [('arm9', 'arm7')]
    if nfiles:
        g.append(('arm9', 0))
        g.append(tuple(range(min(3, nfiles))))
    if debug:
        g.append(('debug', nfiles - 1))
    return g
