"""R04: ROM file order."""

import ndspy.fnt as fnt
import ndspy.rom as rom
from refs import fntref, romgen, romref

ASSUMPTIONS = [
    'orders are lists of up to 5 IDs, each any of 0..number of files + 1, repeats allowed',
    'files with the same position are expected in order of their size, then ID']


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5 if q else 6):
        for k in range(0, 5 if q else 6):
            if n + k > (7 if q else 9):
                continue
            yield dict(name=f'order{n}-{k}', fn='order', args={'n': n, 'k': k},
                       bounds=f'{n} files, any list of {k} IDs')
    for n in range(1, 4 if q else 5):
        for i, p in enumerate(perms(n)):
            yield dict(name=f'sizes{n}.{i}', fn='sizes', args={'perm': p},
                       bounds=f'{n} files of any length 0..2000 in the order {p}')
    for n in (2, 3):
        for i, p in enumerate(perms(n)):
            yield dict(name=f'overlay{n}.{i}', fn='overlay', args={'perm': p},
                       bounds=f'{n} files, one of them an overlay, order {p}')
        yield dict(name=f'positions{n}', fn='positions', args={'n': n},
                   bounds=f'loading {n} files at any positions, including equal ones')


def order(e, n, k):
    r = rom.NintendoDSRom()
    r.files = [bytes([65 + i]) * (1 + i) for i in range(n)]
    ids = [e.pick(f'id{i}', 0, n + 1) for i in range(k)]
    r.sortedFileIds = list(ids)
    d = r.save()
    want = []
    for i in ids + list(range(n)):
        if i < n and i not in want:
            want.append(i)
    check(e, d, r.files, want)


def check(e, d, files, want, again=True):
    r = romref.ranges(e, d)
    for i, f in enumerate(files):
        e.check_eq(romref.cut(d, r[i]), f, f'contents of file {i}')
    for a, b in zip(want, want[1:]):
        e.check(r[a][0] + r[a][1] <= r[b][0], f'file {b} lies behind file {a}')
    m = rom.NintendoDSRom(d)
    e.check(len(m.sortedFileIds) == len(files), 'every file occurs in the order')
    got = list(m.sortedFileIds)
    e.check_eq(sorted(got), list(range(len(files))), 'every file occurs once')
    for a, b in zip(got, got[1:]):
        e.check(e.any([r[a][0] < r[b][0], r[a][0] == r[b][0]]), 'files are listed by position')
    nonempty = [i for i in want if len(files[i]) != 0]
    e.check_eq([i for i in got if len(files[i]) != 0], nonempty, 'the order is recovered')
    if again:
        e.check_eq(m.save(), d, 'saving keeps the positions')


def perms(n):
    if n == 0:
        return [()]
    return [p[:i] + (n - 1,) + p[i:] for p in perms(n - 1) for i in range(n)]


def sizes(e, perm):
    n = len(perm)
    r = rom.NintendoDSRom()
    r.rsaSignature = bytes(range(1, 0x89))
    r.files = [e.blob(f'f{i}', 0, 2000) for i in range(n)]
    r.sortedFileIds = list(perm)
    check(e, r.save(), r.files, r.sortedFileIds, n < 3)


def overlay(e, perm):
    n = len(perm)
    r = rom.NintendoDSRom()
    r.rsaSignature = bytes(range(1, 0x89))
    ov = e.pick('ov', 0, n - 1)
    if e.bool('arm7'):
        r.arm7OverlayTable = romgen.overlay(e, 'o', 0, ov)
    else:
        r.arm9OverlayTable = romgen.overlay(e, 'o', 0, ov)
    r.files = [e.blob(f'f{i}', 1, 2000) if i == ov or n < 3 else e.bytes(f'f{i}', 3) for i in range(n)]
    r.sortedFileIds = list(perm)
    check(e, r.save(), r.files, [ov] + [i for i in perm if i != ov], n < 3)


def positions(e, n):
    pos = [0x4200 + 16 * e.int(f'pos{i}', 0, 8) for i in range(n)]
    fat = b''.join(romref.p32(p) + romref.p32(p + 4) for p in pos)
    h = bytearray(0x4300)
    h[0x20:0x24] = romref.p32(0x4000)
    h[0x48:0x50] = romref.p32(0x4000) + romref.p32(len(fat))
    h[0x4000:0x4000 + len(fat)] = fat
    m = rom.NintendoDSRom(bytes(h))
    got = list(m.sortedFileIds)
    e.check_eq(sorted(got), list(range(n)), 'every file occurs once')
    for a, b in zip(got, got[1:]):
        e.check(e.any([pos[a] < pos[b], e.all([pos[a] == pos[b], a < b])]), 'files are listed by position')
