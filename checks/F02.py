"""F02: lookups by name and by ID agree with the tree."""

import ndspy.fnt as fnt
from refs import fntref

ASSUMPTIONS = [
    'names of 1 or 2 characters out of latin-1 without NUL and "/"; names within a folder differ; '
    'ID ranges of the folders do not overlap',
    'tree shapes and query lengths as listed in the bounds']


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 5 if q else 6):
        for i, sh in enumerate(fntref.shapes(n)):
            for nf in ([1], [2, 1]) if q else ([1], [2, 1], [0, 2]):
                nm = f'{n}.{i}-{nf}'
                a = {'shape': sh, 'nf': nf}
                yield dict(name='existing' + nm, fn='existing', args=a,
                           bounds=f'every file of trees of shape {sh}, {nf} files per folder')
                yield dict(name='byid' + nm, fn='byid', args=a,
                           bounds=f'any ID asked of trees of shape {sh}, {nf} files per folder')
                yield dict(name='folders' + nm, fn='folders', args=a,
                           bounds=f'every folder of trees of shape {sh}')
                for k in (1, 2, 3, 5) if n < 4 else (5, 6) if q else (3, 5, 6, 7):
                    yield dict(name=f'any{nm}-{k}', fn='anypath', args={'shape': sh, 'nf': nf, 'k': k},
                               bounds=f'any path of {k} characters asked of trees of shape {sh}')
    yield dict(name='empty', fn='emptypath', bounds='paths without any name in them')
    yield dict(name='types', fn='badtypes', bounds='keys of other types')


def mk(e, shape, nf, hi=255):
    t = fntref.tree(e, shape, nf, [1, 2], hi=hi, exclude='/', first=FIRST)
    distinct(e, t)
    return t, fntref.make(fnt, t)


FIRST = [100, 7, 50, 0, 300]


def distinct(e, t):
    for names in (t[1], [n for n, _ in t[2]]):
        for i in range(len(names)):
            for j in range(i):
                e.assume(names[i] != names[j])
    for _, s in t[2]:
        distinct(e, s)


def files(t, prefix=()):
    """(path parts, ID) of all files."""
    out = [(prefix + (n,), t[0] + i) for i, n in enumerate(t[1])]
    for n, s in t[2]:
        out += files(s, prefix + (n,))
    return out


def subs(t, obj, prefix=()):
    out = []
    for (n, s), (_, o) in zip(t[2], obj.folders):
        out.append((prefix + (n,), o))
        out += subs(s, o, prefix + (n,))
    return out


def existing(e, shape, nf):
    t, f = mk(e, shape, nf)
    fs = files(t)
    path, fid = fs[e.pick('which', 0, len(fs) - 1)] if fs else e.skip()
    p = '/'.join(path)
    e.check_eq(f.idOf(p), fid, 'idOf gives the ID of the file')
    e.check_eq(f.filenameOf(fid), p, 'filenameOf gives the path of the file')
    e.check_eq(f[p], fid, 'indexing by path')
    e.check_eq(f[fid], p, 'indexing by ID')
    e.check(p in f, 'path is in the folder')
    e.check(fid in f, 'ID is in the folder')
    e.check_eq(f.idOf('/' + p), fid, 'leading slash')
    e.check_eq(f.idOf(p + '/'), fid, 'trailing slash')


def byid(e, shape, nf):
    t, f = mk(e, shape, nf)
    i = e.int('id', 0, 0xFFFF)
    got = f.filenameOf(i)
    want = None
    for path, fid in files(t):
        if fid == i:
            want = '/'.join(path)
            break
    e.out('got', got)
    if want is None:
        e.check(got is None, 'no name for an unknown ID')
        e.check(e.raises(KeyError, f.__getitem__, i) is not None, 'indexing raises KeyError')
        e.check(not (i in f), 'unknown ID is not in the folder')
    else:
        e.check(got is not None, 'a known ID has a name')
        e.check_eq(got, want, 'filenameOf gives the path of the file')


def folders(e, shape, nf):
    t, f = mk(e, shape, nf)
    ss = subs(t, f)
    if not ss:
        e.check(f.subfolder('a') is None, 'no subfolders')
        return
    path, obj = ss[e.pick('which', 0, len(ss) - 1)]
    p = '/'.join(path)
    e.check(f.subfolder(p) is obj, 'subfolder finds the folder')
    e.check(f.subfolder('/' + p + '/') is obj, 'extra slashes')
    if f.idOf(p) is None:
        e.check(f[p] is obj, 'indexing finds the folder')
        e.check(p in f, 'the folder is contained')


def anypath(e, shape, nf, k):
    t, f = mk(e, shape, nf, hi=0x31)
    p = e.str('query', k, 0x2D, 0x31)
    parts = [x for x in split(p)]
    while parts and parts[0] == '':
        parts = parts[1:]
    while parts and parts[-1] == '':
        parts = parts[:-1]
    if not parts:
        e.skip()
    want = lookup(t, parts)
    got = f.idOf(p)
    if want is None:
        e.check(got is None, 'no ID for an unknown path')
    else:
        e.check_eq(got, want, 'idOf gives the ID of the file')
    wantf = lookupf(f, parts)
    e.check(f.subfolder(p) is wantf, 'subfolder gives exactly the folder at the path')
    if want is None and wantf is None:
        e.check(e.raises(KeyError, f.__getitem__, p) is not None, 'indexing raises KeyError')
        e.check(not (p in f), 'unknown path is not in the folder')
    elif want is not None:
        e.check_eq(f[p], want, 'files win over folders when indexing')


def split(p):
    out = []
    cur = ''
    for ch in p:
        if ch == '/':
            out.append(cur)
            cur = ''
        else:
            cur = cur + ch
    return out + [cur]


def lookup(t, parts):
    if len(parts) == 1:
        for i, n in enumerate(t[1]):
            if n == parts[0]:
                return t[0] + i
        return None
    for n, s in t[2]:
        if n == parts[0]:
            return lookup(s, parts[1:])
    return None


def lookupf(f, parts):
    for n, s in f.folders:
        if n == parts[0]:
            return s if len(parts) == 1 else lookupf(s, parts[1:])
    return None


def emptypath(e):
    f = fnt.Folder([('a', fnt.Folder())], ['b'])
    p = e.choice('p', ['', '/', '//'])
    e.check(f.idOf(p) is None, 'no file has an empty path')
    e.check(f.subfolder(p) is None, 'no subfolder has an empty path')
    e.check(e.raises(KeyError, f.__getitem__, p) is not None, 'indexing raises KeyError')


def badtypes(e):
    f = fnt.Folder([('a', fnt.Folder())], ['b'])
    k = e.choice('k', [None, b'b', 1.5, ('b',)])
    e.check(e.raises(TypeError, f.__getitem__, k) is not None, 'other keys raise TypeError')
    e.check(not (k in f), 'and are not contained')
