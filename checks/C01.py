"""C01: ARM9/ARM7 code files survive saving and loading."""

import ndspy.code as code
import ndspy.rom as rom
from refs import lz
from refs.bin import u32, p32

ASSUMPTIONS = [
    'the file does not end like a compressed one (addresses and sizes below 0x08000000, a fixed tail of 24 '
    'bytes in the last section), unless it is compressed',
    'the code settings lie in the first 0x4000 bytes, as the startup code requires',
    'where the code settings are found by searching, other bytes do not look like them',
    'sections of any length have opaque contents and lengths that are multiples of 4; sections of '
    'fixed length have any contents']

MAGIC = b'\x21\x06\xC0\xDE\xDE\xC0\x06\x21'
TAIL = bytes([1, 2, 3, 4] * 6)


def cases(tier):
    q = tier == 'quick'
    for mode in ('pointer', 'magic', 'search'):
        for lens in ([], [4], [8, 0], [0, 8], [4, 0, 12, 0], [0], [12, 4, 8]):
            if mode == 'search' and not lens:
                continue  # begin and end of the table are the same
            yield dict(name=f'{mode}-{lens}', fn='roundtrip', args={'mode': mode, 'lens': lens},
                       bounds=f'code settings found by {mode}, sections of {lens} bytes, any contents, '
                              'addresses and BSS sizes')
    for lens in ([5], [3, 4], [4, 1, 0, 6], [2, 2, 2]):
        for first in (0x40, 0x41, 0x42, 0x43):
            yield dict(name=f'odd-{first:x}-{lens}', fn='odd', args={'lens': lens, 'first': first},
                       bounds=f'sections of {first}, {lens} bytes, any contents')
    for n in range(0, 3 if q else 5):
        yield dict(name=f'blobs{n}', fn='blobs', args={'n': n},
                   bounds=f'{n} sections of any length 0..70000 (multiples of 4)')
    yield dict(name='firstblob', fn='firstblob', bounds='first section of any length 0x40..70000 (multiples of 4)')
    for k in (0, 1, 4, 7, 8, 12):
        yield dict(name=f'plain{k}', fn='plain', args={'k': k},
                   bounds=f'{k} bytes of any contents without code settings')
    for n, at in ([(12, i) for i in range(9)] + [(30, i) for i in (0, 1, 2, 3, 11, 12, 13, 25, 26)]):
        yield dict(name=f'stray{n}-{at}', fn='stray', args={'n': n, 'at': at, 'what': 'end'},
                   bounds=f'{n} bytes with the address of the end at {at}, 4 free bytes on either side')
    for at in (0, 4, 8, 24):
        yield dict(name=f'straymagic{at}', fn='stray', args={'n': 36, 'at': at, 'what': 'magic'},
                   bounds=f'36 bytes with the marker of the code settings at {at}, 4 free bytes on either side')
    for lens in ([], [24], [36, 0, 12]) if q else ([], [24], [36, 0, 12], [64, 64], [8]):
        for hint in (True, False):
            yield dict(name=f'compressed-{lens}-{int(hint)}', fn='compressed', args={'lens': lens, 'hint': hint},
                       bounds=f'first section of 0x4020 bytes, sections of {lens} bytes with 2 free bytes, compressed')
    yield dict(name='rom', fn='viarom', bounds='ARM9 and ARM7 code loaded through a ROM')


def mk(e, mode, datas, ram, cso, first=0x60):
    """Sections with free contents; datas of the explicit ones."""
    s0 = bytearray(first)
    s0[cso:cso + 0x24] = e.bytes('settings', 0x1C) + (MAGIC if mode == 'magic' else bytes(8))
    if mode == 'search':
        s0[cso:cso + 0x24] = bytes(0x24)
    if mode == 'pointer':
        s0[4:8] = p32(ram + cso)
    s0[first - 8:first] = e.bytes('s0', 8) if mode != 'search' else bytes([e.int('s0', 0, 255), 9, 9, 9] * 2)
    if not datas:
        s0[first - 28 - len(s0) % 4:first] = TAIL + bytes(4 + len(s0) % 4)
    secs = [code.MainCodeFile.Section(bytes(s0), ram, 0, implicit=True)]
    info = []
    for i, d in enumerate(datas):
        a = e.int(f'addr{i}', 0x01000000, 0x07FFFFFF)
        b = e.int(f'bss{i}', 0, 0x07FFFFFF)
        secs.append(code.MainCodeFile.Section(d, a, b))
        info.append((d, a, b))
    f = code.MainCodeFile.fromSections(secs, ram)
    f.codeSettingsOffs = cso
    return f, s0, info


def pad(d):
    return bytes(d) + bytes(-len(d) % 4)


def ordered(info):
    """Sections without data come last."""
    return [x for x in info if len(x[0]) != 0] + [x for x in info if len(x[0]) == 0]


def verify(e, d, s0, info, ram, cso, mode, comp=False):
    """Reads the sections from the file, then compares what the package loads."""
    beg, end, data = u32(d, cso), u32(d, cso + 4), u32(d, cso + 8)
    e.check_eq(end - beg, 12 * len(info), 'length of the section table')
    e.check_eq(data - ram, len(pad(s0)), 'end of the first section')
    e.check_eq(d[:cso], s0[:cso], 'first section')
    e.check_eq(d[cso + 0x18:len(s0)], s0[cso + 0x18:], 'first section')
    e.check_eq(d[cso + 0xC:cso + 0x14], s0[cso + 0xC:cso + 0x14], 'other code settings')
    e.check_eq(u32(d, cso + 0x14), 0, 'marked as not compressed')
    p = data - ram
    t = beg - ram
    for i, (sd, a, b) in enumerate(info):
        e.check_eq(u32(d, t + 12 * i), a, f'address of section {i}')
        e.check_eq(u32(d, t + 12 * i + 4), len(pad(sd)), f'length of section {i}')
        e.check_eq(u32(d, t + 12 * i + 8), b, f'BSS size of section {i}')
        e.check_eq(d[p:p + len(pad(sd))], pad(sd), f'data of section {i}')
        p = p + len(pad(sd))
    e.check_eq(p, t, 'the section table follows the sections')
    e.check_eq(end - ram, len(d), 'and ends the file')
    loaded(e, d, s0, info, ram, cso, mode)


def loaded(e, d, s0, info, ram, cso, mode):
    g = code.MainCodeFile(d, ram, ram + 8 if mode == 'pointer' else None)
    e.check_eq(g.codeSettingsOffs, cso, 'code settings are found')
    e.check(len(g.sections) == 1 + len(info), 'number of sections')
    z = g.sections[0]
    e.check(z.implicit == True and z.ramAddress == ram, 'first section is implicit')
    e.check_eq(z.data[:cso], pad(s0)[:cso], 'first section')
    e.check_eq(z.data[cso + 0x18:], pad(s0)[cso + 0x18:], 'first section')
    for i, (sd, a, b) in enumerate(info):
        s = g.sections[1 + i]
        e.check(not s.implicit, 'other sections are explicit')
        e.check_eq(s.data, pad(sd), f'loaded data of section {i}')
        e.check_eq(s.ramAddress, a, f'loaded address of section {i}')
        e.check_eq(s.bssSize, b, f'loaded BSS size of section {i}')


def datas(e, lens):
    """Free contents, with a fixed tail at the end of the last section that has data."""
    out = [e.bytes(f'd{i}', n) for i, n in enumerate(lens)]
    for i in reversed(range(len(out))):
        if len(out[i]):
            out[i] = out[i] + TAIL
            break
    return out


def roundtrip(e, mode, lens):
    if mode == 'search':
        ram = 0x2380000
        ds = [bytes(b | 0xC0 for b in d) for d in datas(e, lens)]
    else:
        ram = 0x2000000 + 4 * e.int('ram', 0, 0xFFFF)
        ds = datas(e, lens)
    if lens and not any(lens):
        lens = lens + [0]
        ds = ds + [TAIL]
    cso = 0x10
    f, s0, info = mk(e, mode, ds, ram, cso)
    d = f.save()
    e.out('d', d)
    if mode == 'magic':
        once(e, d)
    if mode == 'search':
        # the end of the file occurs in the settings only
        e.assume(bytes(d).count(p32(ram + len(d))) == 1)
    verify(e, bytes(d), s0, ordered(info), ram, cso, mode)


def once(e, d):
    for i in range(0, 0x2C, 4):
        e.assume(d[i:i + 8] != MAGIC)


def odd(e, lens, first):
    ram = 0x2000000
    f, s0, info = mk(e, 'pointer', datas(e, lens), ram, 0x10, first)
    verify(e, bytes(f.save()), s0, ordered(info), ram, 0x10, 'pointer')


def blobs(e, n):
    ram = 0x2000000 + 4 * e.int('ram', 0, 0xFFFF)
    ds = [e.blob(f'd{i}', 0, 70000) for i in range(n)]
    for d in ds:
        e.assume(len(d) % 4 == 0)
    f, s0, info = mk(e, 'pointer', ds + [TAIL], ram, 0x10)
    verify(e, bytes(f.save()), s0, ordered(info), ram, 0x10, 'pointer')


def firstblob(e):
    ram = 0x2000000
    cso = 0x10
    more = e.blob('more', 0, 70000)
    e.assume(len(more) % 4 == 0)
    s0 = bytes(4) + p32(ram + cso) + bytes(0x38) + more
    f = code.MainCodeFile.fromSections([code.MainCodeFile.Section(s0, ram, 0, implicit=True),
                                        code.MainCodeFile.Section(TAIL, 0x1FF8000, 4)], ram)
    f.codeSettingsOffs = cso
    verify(e, bytes(f.save()), s0, [(TAIL, 0x1FF8000, 4)], ram, cso, 'pointer')


def plain(e, k):
    ram = 0x2000000
    d = e.bytes('d', k)
    e.assume(lz.no_footer(e, d))
    e.assume(MAGIC not in d)
    e.assume(p32(ram + k) not in d)
    f = code.MainCodeFile(d, ram)
    e.check(f.codeSettingsOffs is None, 'no code settings')
    e.check(len(f.sections) == 1, 'a single section')
    s = f.sections[0]
    e.check(s.implicit and s.ramAddress == ram and s.bssSize == 0, 'an implicit section')
    e.check_eq(s.data, d, 'all of the data')
    e.check_eq(f.save(), pad(d), 'saving gives the data')


def stray(e, n, at, what):
    """Code that has no room for code settings around what looks like a part of them."""
    ram = e.int('ram', 0x02000000, 0x027FFFFF)
    x = p32(ram + n) if what == 'end' else MAGIC
    pre, post = bytes([0x55] * n), bytes([0x66] * n)
    d = (pre + e.bytes('pre', 4))[n + 4 - at:] + x + (e.bytes('post', 4) + post)[:n - at - len(x)]
    e.assume(lz.no_footer(e, d))
    end = p32(ram + n)
    if what == 'magic':
        e.assume(end not in d)
    else:
        for i in range(4, n - 0x13):
            if i != at:
                e.assume(d[i:i + 4] != end)
    f = code.MainCodeFile(d, ram)
    e.check(f.codeSettingsOffs is None, 'no code settings')
    e.check(len(f.sections) == 1, 'a single section')
    e.check_eq(f.sections[0].data, d, 'all of the data')


def compressed(e, lens, hint):
    ram = 0x2000000
    cso = 0x10
    s0 = bytearray(lz.filler(0x4020, 40))
    s0[0:4] = e.bytes('s0', 4)
    s0[4:8] = p32(ram + cso)
    s0[cso:cso + 0x24] = e.bytes('settings', 0x1C) + MAGIC
    ds = []
    for i, n in enumerate(lens):
        u = bytes([e.int(f'u{i}', 200, 255), 7])
        ds.append((u * n)[:n])
    secs = [code.MainCodeFile.Section(bytes(s0), ram, 0, implicit=True)]
    info = []
    for i, d in enumerate(ds):
        secs.append(code.MainCodeFile.Section(d, 0x1FF8000 + i, 0x100 * i))
        info.append((d, 0x1FF8000 + i, 0x100 * i))
    f = code.MainCodeFile.fromSections(secs, ram)
    f.codeSettingsOffs = cso
    if not hint:
        once(e, s0)
    d = f.save(compress=True)
    e.check_eq(d[0:cso], s0[:cso], 'the secure area is stored as it is')
    e.check_eq(d[cso + 0x18:0x4000], s0[cso + 0x18:0x4000], 'the secure area is stored as it is')
    e.check_eq(u32(d, cso + 0x14), ram + len(d), 'end of the compressed code')
    loaded(e, bytes(d), s0, ordered(info), ram, cso, 'pointer' if hint else 'magic')


def viarom(e):
    r = rom.NintendoDSRom()
    ram = [0x2000000 + 4 * e.int('ram9', 0, 0xFFFF), 0x2380000 + 4 * e.int('ram7', 0, 0xFFFF)]
    files = []
    for i in range(2):
        s0 = bytes(4) + p32(ram[i] + 0x10) + bytes(8) + bytes(0x1C) + (MAGIC if i == 0 else bytes(8)) + e.bytes(f's{i}', 8)
        secs = [code.MainCodeFile.Section(s0, ram[i], 0, implicit=True),
                code.MainCodeFile.Section(e.bytes(f'x{i}', 4) + TAIL, 0x1FF8000, 4 + i)]
        f = code.MainCodeFile.fromSections(secs, ram[i])
        f.codeSettingsOffs = 0x10
        files.append((f, s0))
    r.arm9, r.arm7 = bytes(files[0][0].save()), bytes(files[1][0].save())
    r.arm9RamAddress, r.arm7RamAddress = ram
    r.arm9CodeSettingsPointerAddress, r.arm7CodeSettingsPointerAddress = ram[0] + 8, ram[1] + 8
    for i, g in enumerate((r.loadArm9(), r.loadArm7())):
        f, s0 = files[i]
        e.check_eq(g.ramAddress, ram[i], 'RAM address')
        e.check_eq(g.codeSettingsOffs, 0x10, 'code settings')
        e.check(len(g.sections) == 2, 'number of sections')
        e.check_eq(g.sections[1].data, f.sections[1].data, 'section data')
        e.check_eq(g.sections[1].bssSize, 4 + i, 'BSS size')
        e.check_eq(g.save(), f.save(), 'saving gives the same file')
