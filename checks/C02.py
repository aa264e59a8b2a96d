"""C02: overlay tables and overlays survive saving and loading."""

import ndspy.code as code
import ndspy.codeCompression as cc
import ndspy.rom as rom
from refs import lz
from refs.bin import u32, p32

ASSUMPTIONS = [
    'up to 3 overlays (and 40 in one case) with all values of all fields; overlay IDs are distinct',
    'overlay data: opaque of any length when uncompressed, and families of compressible bytes when compressed',
    'data that compression stores as it is must not end like a compressed file (see L03)']

NAMES = ['ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd']


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 4 if q else 5):
        yield dict(name=f'table{n}', fn='table', args={'n': n}, bounds=f'{n} overlays, all field values, any distinct IDs')
        yield dict(name=f'foreign{n}', fn='foreign', args={'n': n}, bounds=f'any table of {n} overlays')
    yield dict(name='table40', fn='many', args={'n': 40}, bounds='40 overlays')
    yield dict(name='filter', fn='filtered', bounds='any of 3 overlays selected by ID')
    yield dict(name='plain', fn='plain', bounds='overlays of any length 0..70000 saved uncompressed, any old flags')
    for kind, n, k in [('any', 0, 0), ('any', 3, 0), ('any', 6, 0), ('periodic', 40, 2), ('periodic', 21, 1),
                       ('tail', 8, 3), ('pqp', 5, 3), ('ppqp', 12, 4)]:
        yield dict(name=f'comp-{kind}-{n}', fn='comp', args={'kind': kind, 'n': n, 'k': k},
                   bounds='compressed overlay: ' + lz.DESCR[kind].format(n=n, k=k))
    yield dict(name='flags', fn='flags', bounds='flag accessors, all flag values')
    yield dict(name='rom', fn='viarom', bounds='overlays loaded through a ROM')


def fields(e, i, flags=None):
    v = {n: e.int(f'{n}{i}', 0, 0xFFFFFFFF) for n in NAMES}
    v['fileID'] = e.int(f'file{i}', 0, 0xFFFFFFFF)
    v['compressedSize'] = e.int(f'csize{i}', 0, 0xFFFFFF)
    # bit 0 (compressed) is off
    v['flags'] = 2 * e.int(f'flags{i}', 0, 127) if flags is None else flags
    return v


def mk(data, v):
    return code.Overlay(data, *[v[n] for n in NAMES], v['fileID'], v['compressedSize'], v['flags'])


def same(e, o, v, data, what):
    for n in v:
        e.check_eq(getattr(o, n), v[n], f'{what}: {n}')
    e.check_eq(o.data, data, f'{what}: data')


def table(e, n):
    ids = [e.int(f'id{i}', 0, 0xFFFFFFFF) for i in range(n)]
    for i in range(n):
        for j in range(i):
            e.assume(ids[i] != ids[j])
    vs = [fields(e, i) for i in range(n)]
    datas = [e.blob(f'd{i}', 0, 70000) for i in range(n)]
    t = {}
    for i in range(n):
        t[ids[i]] = mk(datas[i], vs[i])
    d = code.saveOverlayTable(t)
    e.check(len(d) == 32 * n, 'table size')
    for i in range(n - 1):
        e.check(u32(d, 32 * i) < u32(d, 32 * i + 32), 'overlays are ordered by ID')
    calls = []

    def callback(ov, fid):
        calls.append((ov, fid))
        for i in range(n):
            if ids[i] == ov:
                return datas[i]
        e.fail('callback for an unknown overlay')
    o = code.loadOverlayTable(d, callback)
    e.check(len(o) == n and len(calls) == n, 'number of overlays')
    for i in range(n):
        e.check(ids[i] in o, 'overlay ID is kept')
        same(e, o[ids[i]], vs[i], datas[i], 'loaded overlay')
    for ov, fid in calls:
        for i in range(n):
            if ids[i] == ov:
                e.check_eq(fid, vs[i]['fileID'], 'the callback gets the file ID')


def many(e, n):
    vs = [fields(e, i) for i in range(n)]
    t = {}
    for i in reversed(range(n)):
        t[i] = mk(bytes([i]), vs[i])
    d = code.saveOverlayTable(t)
    o = code.loadOverlayTable(d, lambda ov, fid: bytes([ov]))
    e.check(list(o) == list(range(n)), 'overlays in order')
    for i in range(n):
        same(e, o[i], vs[i], bytes([i]), f'overlay {i}')
    e.check_eq(code.saveOverlayTable(o), d, 'saving again gives the same table')


def foreign(e, n):
    """Tables read from a file, with IDs in any order, all uncompressed."""
    d = b''
    rows = []
    for i in range(n):
        row = [e.int(f'w{i}.{j}', 0, 0xFFFFFFFF) for j in range(7)]
        row[0] = i * 3 if e.bool(f'k{i}') else 100 - i
        size, flags = e.int(f's{i}', 0, 0xFFFFFF), 2 * e.int(f'f{i}', 0, 127)
        rows.append((row, size, flags))
        for w in row:
            d = d + p32(w)
        d = d + p32(size | flags << 24)
    o = code.loadOverlayTable(d, lambda ov, fid: p32(ov) + p32(fid))
    e.check(len(o) == n, 'number of overlays')
    for row, size, flags in rows:
        v = dict(zip(NAMES, row[1:6]))
        v.update(fileID=row[6], compressedSize=size, flags=flags)
        same(e, o[row[0]], v, p32(row[0]) + p32(row[6]), 'overlay')
    out = code.saveOverlayTable(o)
    e.check(len(out) == len(d), 'length of the saved table')
    for i in range(n):
        rank = len([1 for r in rows if r[0][0] < rows[i][0][0]])
        e.check_eq(out[32 * rank:32 * rank + 32], d[32 * i:32 * i + 32], 'rows are kept')


def filtered(e):
    ids = [5, 2, 0x80000001]
    vs = [fields(e, i) for i in range(3)]
    t = {ids[i]: mk(b'', vs[i]) for i in range(3)}
    d = code.saveOverlayTable(t)
    want = [i for i in ids if e.bool(f'want{i}')]
    calls = []

    def callback(ov, fid):
        calls.append(ov)
        return p32(ov)
    o = code.loadOverlayTable(d, callback, want)
    e.check_eq(sorted(o), sorted(want), 'only the requested overlays')
    e.check_eq(sorted(calls), sorted(want), 'only the requested files')
    for i, k in enumerate(ids):
        if k in want:
            same(e, o[k], vs[i], p32(k), 'loaded overlay')


def plain(e):
    v = fields(e, 0)
    data = e.blob('d', 0, 70000)
    o = mk(data, v)
    if e.bool('was'):
        o.compressed = True
    d = o.save()
    e.check_eq(d, data, 'uncompressed overlays are saved as they are')
    e.check_eq(o.ramSize, len(data), 'RAM size')
    e.check_eq(o.compressedSize, len(data), 'compressed size')
    e.check(not o.compressed, 'not marked as compressed')
    e.check_eq(o.flags, v['flags'], 'other flags are kept')
    e.check_eq(o.data, data, 'data')


def comp(e, kind, n, k):
    data = lz.family(e, kind, n, k)
    v = fields(e, 0)
    o = mk(data, v)
    c = o.save(compress=True)
    stored = data + bytes(-len(data) % 4) + bytes(4)
    if len(c) == len(stored):
        e.assume(e.any([c != stored, lz.no_footer(e, c, 4)]))
    e.check_eq(c, cc.compress(data), 'compressed data')
    e.check_eq(o.ramSize, len(data), 'RAM size')
    e.check_eq(o.compressedSize, len(c), 'compressed size')
    e.check(o.compressed, 'marked as compressed')
    e.check_eq(o.flags, v['flags'] | 1, 'other flags are kept')
    e.check_eq(o.data, data, 'the overlay still holds its data')
    t = code.loadOverlayTable(code.saveOverlayTable({7: o}), lambda ov, fid: c)
    got = t[7].data
    e.check_eq(got, data if len(got) == len(data) else stored, 'compressed overlays are decompressed')
    e.check_eq(t[7].flags, v['flags'] | 1, 'flags')


def flags(e):
    fl = e.int('fl', 0, 255)
    o = mk(b'', dict(fields(e, 0), flags=fl & 0xFE))
    o.flags = fl
    e.check((o.compressed == True) == (fl & 1 == 1), 'compressed')
    e.check((o.verifyHash == True) == (fl & 2 == 2), 'verifyHash')
    a, b = e.bool('a'), e.bool('b')
    o.compressed = a
    e.check_eq(o.flags, (fl & 0xFE) | (1 if a else 0), 'setting compressed')
    o.verifyHash = b
    e.check_eq(o.flags, (fl & 0xFC) | (1 if a else 0) | (2 if b else 0), 'setting verifyHash')


def viarom(e):
    r = rom.NintendoDSRom()
    r.files = [e.bytes(f'f{i}', 3 + i) for i in range(3)]
    v9, v7 = dict(fields(e, 0), fileID=2), dict(fields(e, 1), fileID=0)
    r.arm9OverlayTable = code.saveOverlayTable({4: mk(b'', v9)})
    r.arm7OverlayTable = code.saveOverlayTable({1: mk(b'', v7)})
    m = rom.NintendoDSRom(r.save())
    a, b = m.loadArm9Overlays(), m.loadArm7Overlays()
    e.check(list(a) == [4] and list(b) == [1], 'overlay IDs')
    same(e, a[4], v9, r.files[2], 'ARM9 overlay')
    same(e, b[1], v7, r.files[0], 'ARM7 overlay')
    e.check(list(m.loadArm9Overlays([3])) == [], 'unknown IDs are not loaded')
    e.check(list(m.loadArm7Overlays([1])) == [1], 'requested IDs are loaded')
