"""F01: filename tables survive saving and loading."""

import ndspy.fnt as fnt
from refs import fntref

ASSUMPTIONS = [
    'names of 1 to 127 characters out of latin-1 without NUL; first IDs 0..0xFFFF',
    'tree shapes and name lengths as listed in the bounds; fewer than 4096 folders']


def cases(tier):
    q = tier == 'quick'
    for n in range(1, 6 if q else 7):
        for i, sh in enumerate(fntref.shapes(n)):
            for nf, nl in ([([1], [2, 1]), ([0, 2], [1, 3])] if q else
                           [([1], [2, 1]), ([0, 2], [1, 3]), ([2, 0, 1], [4, 1, 2]), ([3, 1], [1])]):
                yield dict(name=f'tree{n}.{i}-{nf}-{nl}', fn='roundtrip',
                           args={'shape': sh, 'nf': nf, 'nl': nl},
                           bounds=f'tree shape {sh}, {nf} files per folder, names of {nl} characters')
    for lo in range(1, 128, 16):
        yield dict(name=f'length{lo}', fn='lengths', args={'lo': lo, 'hi': min(127, lo + 15)},
                   bounds=f'file and folder names of each length {lo}..{min(127, lo + 15)}')
    yield dict(name='toolong', fn='toolong', bounds='names of 128 to 130 and 255 to 257 characters')
    for n, k in ((5, 1), (130, 1), (3, 300)):
        yield dict(name=f'wide{n}x{k}', fn='roundtrip',
                   args={'shape': ((),) * n, 'nf': [k, 1], 'nl': [2, 1]},
                   bounds=f'{n} subfolders, {k} files in the root')
    yield dict(name='large', fn='large', ticks=5000000, bounds='a table of more than 64 KiB: 600 long names in front of two folders')
    yield dict(name='wide260', fn='concretenames', args={'n': 260}, bounds='260 subfolders, nested every 10')
    yield dict(name='deep', fn='roundtrip', args={'shape': ((((((((),),),),),),),), 'nf': [1], 'nl': [1]},
               bounds='8 nested folders')
    for n in range(1, 5 if q else 6):
        for i, sh in enumerate(fntref.shapes(n)):
            yield dict(name=f'foreign{n}.{i}', fn='foreign', args={'shape': sh, 'n': n},
                       bounds=f'tables of tree shape {sh} with every assignment of folder IDs')


def roundtrip(e, shape, nf, nl):
    t = fntref.tree(e, shape, nf, nl)
    d = fnt.save(fntref.make(fnt, t))
    e.out('d', d)
    e.check_eq(fntref.read(e, bytes(d)), fntref.encoded(t), 'the table describes the tree')
    e.check_eq(fntref.of(fnt.load(d)), t, 'load(save(tree)) == tree')


def lengths(e, lo, hi):
    n = e.pick('n', lo, hi)
    roundtrip(e, ((), ((),)), [1, 0, 2], [n, 128 - n])


def concretenames(e, n):
    fid = e.int('f', 0, 0xFFFF)
    nm = e.str('n', 2, 1, 255)
    subs = []
    for i in range(n):
        inner = [(f'in{i}', (i, [nm], []))] if i % 10 == 0 else []
        subs.append((f'folder{i}', ((fid + i) & 0xFFFF, [f'a{i}', nm], inner)))
    t = (fid, [nm], subs)
    d = fnt.save(fntref.make(fnt, t))
    e.check_eq(fntref.read(e, bytes(d)), fntref.encoded(t), 'the table describes the tree')
    e.check_eq(fntref.of(fnt.load(d)), t, 'load(save(tree)) == tree')


def large(e):
    nm = e.str('n', 2, 1, 255)
    fid = e.int('f', 0, 0xFFFF)
    t = (fid, [nm] + [f'{i:0120}' for i in range(600)], [('one', (600, ['x', nm], [])), (nm, (602, ['y'], []))])
    d = fnt.save(fntref.make(fnt, t))
    e.check_eq(fntref.read(e, bytes(d)), fntref.encoded(t), 'the table describes the tree')
    e.check_eq(fntref.of(fnt.load(d)), t, 'load(save(tree)) == tree')


def toolong(e):
    n = e.choice('n', [128, 129, 130, 255, 256, 257])
    name = 'x' * n
    if e.bool('isfolder'):
        f = fnt.Folder([(name, fnt.Folder())], ['ok'])
    else:
        f = fnt.Folder([], ['ok', name])
    e.check(e.raises(ValueError, fnt.save, f) is not None, 'names that do not fit are refused')


def perms(n):
    if n == 0:
        return [()]
    return [p[:i] + (n - 1,) + p[i:] for p in perms(n - 1) for i in range(n)]


def foreign(e, shape, n):
    t = fntref.tree(e, shape, [1, 2, 0], [2, 1])
    order = (0,) + tuple(1 + x for x in e.choice('order', perms(n - 1)))
    d = fntref.write(t, order)
    f = fnt.load(d)
    e.check_eq(fntref.of(f), t, 'load gives the tree the table describes')
    e.check_eq(fntref.read(e, bytes(fnt.save(f))), fntref.encoded(t), 'saving keeps the meaning')
