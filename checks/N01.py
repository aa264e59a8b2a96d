"""N01: NARC archives survive saving and loading."""

import ndspy.fnt as fnt
import ndspy.narc as narc
from refs import fntref

ASSUMPTIONS = [
    'files of symbolic length have opaque contents (two different files never share contents by '
    'coincidence); cases with files of fixed lengths leave every byte free',
    'numbers of files, name trees and lengths as listed in the bounds']

TREES = {
    'none': (0, [], []),
    'flat': (0, ['a', 'bc'], []),
    'sub': (0, ['a'], [('d', (1, ['x', 'yz'], []))]),
    'deep': (2, [], [('d', (0, ['x'], [('f', (1, ['y'], []))])), ('e', (2, ['q'], []))]),
}


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 5 if q else 6):
        for t in TREES:
            if q and n == 4 and t != 'sub':
                continue
            yield dict(name=f'blobs{n}-{t}', fn='blobs', args={'n': n, 'tree': t},
                       bounds=f'{n} files of any length 0..70000, name tree {t}')
    for lens in ([0], [1], [3, 0, 5], [4, 4], [8, 1, 0, 2], [0, 0]):
        yield dict(name=f'bytes{lens}', fn='fixed', args={'lens': lens},
                   bounds=f'files of lengths {lens} with any contents, any names of 1..2 characters')
    yield dict(name='many', fn='many', args={'n': 300}, bounds='300 files, any contents')
    yield dict(name='byname', fn='byname', bounds='reading and replacing files by name, 3 files of any length')


def check(e, files, tree, order):
    n = narc.NARC()
    n.files = list(files)
    n.filenames = fntref.make(fnt, tree)
    n.endiannessOfBeginning = order
    d = n.save()
    m = narc.NARC(d)
    e.check(len(m.files) == len(files), 'number of files')
    for i, f in enumerate(files):
        e.check_eq(m.files[i], f, f'contents of file {i}')
    e.check_eq(fntref.of(m.filenames), tree, 'filename tree')
    e.check_eq(m.endiannessOfBeginning, order, 'byte order of the beginning')
    e.check_eq(m.save(), d, 'saving again gives the same bytes')
    m2 = narc.NARC.fromFilesAndNames(list(files), fntref.make(fnt, tree))
    if order == '<':
        e.check_eq(m2.save(), d, 'fromFilesAndNames makes the same archive')
    if not tree[1] and not tree[2]:
        for m2 in (narc.NARC.fromFilesAndNames(list(files)), narc.NARC.fromFilesAndNames(list(files), None)):
            m2.endiannessOfBeginning = order
            e.check_eq(m2.save(), d, 'fromFilesAndNames without names')
    return d


def blobs(e, n, tree):
    order = e.choice('order', ['<', '>'])
    check(e, [e.blob(f'f{i}', 0, 70000) for i in range(n)], TREES[tree], order)


def fixed(e, lens):
    files = [e.bytes(f'f{i}', k) for i, k in enumerate(lens)]
    tree = fntref.tree(e, ((),), [1], [2, 1])
    d = check(e, files, tree, e.choice('order', ['<', '>']))
    e.out('d', d)


def many(e, n):
    files = [bytes([i & 255]) * (i % 7) + e.bytes(f'f{i}', 1) for i in range(n)]
    check(e, files, (0, [f'file{i}' for i in range(n)], []), '<')


def byname(e):
    files = [e.blob(f'f{i}', 0, 5000) for i in range(3)]
    n = narc.NARC.fromFilesAndNames(list(files), fntref.make(fnt, TREES['sub']))
    new = e.blob('new', 0, 5000)
    names = ['a', 'd/x', 'd/yz']
    i = e.pick('i', 0, 2)
    e.check_eq(n.getFileByName(names[i]), files[i], 'getFileByName')
    n.setFileByName(names[i], new)
    m = narc.NARC(n.save())
    for j in range(3):
        e.check_eq(m.getFileByName(names[j]), new if i == j else files[j], 'after setFileByName')
    for bad in ('x', 'd', 'd/a', 'e/x'):
        e.check(e.raises(ValueError, n.getFileByName, bad) is not None, 'unknown names are refused')
        e.check(e.raises(ValueError, n.setFileByName, bad, new) is not None, 'unknown names are refused')
