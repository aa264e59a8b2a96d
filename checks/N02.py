"""N02: NARC files are laid out correctly."""

import ndspy.fnt as fnt
import ndspy.narc as narc
from refs import fntref, narcref

ASSUMPTIONS = [
    'files of symbolic length have opaque contents; cases with files of fixed lengths leave every byte free',
    'archives from other tools: 1 to 3 files in every physical order with any gaps of up to 40 bytes']


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 5 if q else 6):
        yield dict(name=f'layout{n}', fn='layout', args={'n': n},
                   bounds=f'{n} files of any length 0..70000, any first ID, any 2-character name')
    for lens in ([1, 2, 3], [5, 0, 4]):
        yield dict(name=f'layout{lens}', fn='fixed', args={'lens': lens},
                   bounds=f'files of lengths {lens} with any contents')
    yield dict(name='many', fn='many', args={'n': 260}, bounds='260 files')
    for n in range(0, 4):
        yield dict(name=f'foreign{n}', fn='foreign', args={'n': n},
                   bounds=f'archives with {n} files of any length 0..5000 in any physical order, any gaps')


def verify(e, files, tree, order):
    n = narc.NARC.fromFilesAndNames(list(files), fntref.make(fnt, tree))
    n.endiannessOfBeginning = order
    d = n.save()
    o, fs, t = narcref.read(e, d)
    e.check_eq(o, order, 'byte order of the beginning')
    e.check(len(fs) == len(files), 'number of files')
    for i, f in enumerate(files):
        e.check_eq(fs[i], f, f'contents of file {i}')
    e.check_eq(t, fntref.encoded(tree), 'names')


def layout(e, n):
    files = [e.blob(f'f{i}', 0, 70000) for i in range(n)]
    k = e.pick('k', 1, 4) if n < 3 else 2
    tree = (e.int('first', 0, 0xFFFF), [e.str('a', k, 1, 255)], [(e.str('b', 1, 1, 255), (0, ['q', 'rr'], []))])
    verify(e, files, tree, e.choice('order', ['<', '>']))


def fixed(e, lens):
    verify(e, [e.bytes(f'f{i}', k) for i, k in enumerate(lens)], (0, ['x'], []), '<')


def many(e, n):
    verify(e, [e.bytes(f'f{i}', i % 6) for i in range(n)], (0, [f'n{i}' for i in range(n)], []), '<')


def perms(n):
    if n == 0:
        return [()]
    return [p[:i] + (n - 1,) + p[i:] for p in perms(n - 1) for i in range(n)]


def foreign(e, n):
    files = [e.blob(f'f{i}', 0, 5000) for i in range(n)]
    perm = e.choice('perm', perms(n))
    gaps = [e.blob(f'g{i}', 0, 40) if n < 3 or i == perm[1] else bytes(i) for i in range(n)]
    order = e.choice('order', ['<', '>']) if n < 2 else '<'
    pad = e.choice('pad', [b'', b'\xff', b'\0\0', b'\xff\xff\xff']) if n < 3 else b'\xff'
    tree = (0, [e.str('a', 2, 1, 255)], [])
    d = narcref.write(files, tree, order, perm, gaps, pad)
    m = narc.NARC(d)
    e.check(len(m.files) == n, 'number of files')
    for i, f in enumerate(files):
        e.check_eq(m.files[i], f, f'contents of file {i}')
    e.check_eq(fntref.of(m.filenames), tree, 'names')
    e.check_eq(m.endiannessOfBeginning, order, 'byte order of the beginning')
