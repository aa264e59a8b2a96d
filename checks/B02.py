"""B02: BMG scripts, labels and instructions survive saving and loading."""

import ndspy.bmg as bmg
from refs import bmgref as ref

ASSUMPTIONS = [
    'up to 9 instructions, 17 labels and 5 scripts with all values',
    'trailing all-zero instructions and trailing (0, 0) labels cannot be told from padding in this format, so '
    'the last instruction and the last label are not all zero']


def cases(tier):
    q = tier == 'quick'
    for order in '<>':
        tag = 'le' if order == '<' else 'be'
        for i in range(0, 5 if q else 12):
            yield dict(name=f'{tag}-inst{i}', fn='roundtrip', args={'order': order, 'n': [i, 0, 0]},
                       bounds=f'{i} instructions, all values')
        for i in list(range(0, 10)) + [16, 17] + ([] if q else [31, 32, 33]):
            yield dict(name=f'{tag}-label{i}', fn='roundtrip', args={'order': order, 'n': [0, i, 0]},
                       bounds=f'{i} labels, all values')
        for i in range(1, 6 if q else 12):
            yield dict(name=f'{tag}-script{i}', fn='roundtrip', args={'order': order, 'n': [0, 0, i]},
                       bounds=f'{i} scripts, all values')
        for n in ([1, 1, 1], [2, 3, 2], [5, 8, 3], [3, 2, 0], [9, 9, 4]):
            yield dict(name=f'{tag}-mixed{n}', fn='roundtrip', args={'order': order, 'n': n},
                       bounds=f'{n[0]} instructions, {n[1]} labels, {n[2]} scripts, all values')
        for n in ([2, 8, 0], [3, 2, 1], [1, 0, 2], [4, 9, 3]):
            yield dict(name=f'{tag}-foreign{n}', fn='foreign', args={'order': order, 'n': n},
                       bounds='files without padding entries, with sections in another order')
    yield dict(name='badlen', fn='badlen', bounds='instructions of 0..10 bytes')
    yield dict(name='order', fn='badorder', bounds='unknown byte orders')
    yield dict(name='section', fn='section', bounds='4 bytes of any section name')


def content(e, n):
    ins = [e.bytes(f'in{i}', 8) for i in range(n[0])]
    labels = [(e.int(f'lb{i}', -128, 127), e.int(f'li{i}', -0x8000, 0x7FFF)) for i in range(n[1])]
    scripts = [(e.int(f'si{i}', 0, 0xFFFFFFFF), e.int(f'sx{i}', 0, 0xFFFF)) for i in range(n[2])]
    if ins:
        e.assume(ins[-1] != bytes(8))
    if labels:
        e.assume(e.any([labels[-1][0] != 0, labels[-1][1] != 0]))
    return ins, labels, scripts


class Inst:
    def __init__(self, d):
        self.d = d

    def save(self):
        return self.d


def roundtrip(e, order, n):
    ins, labels, scripts = content(e, n)
    b = bmg.BMG.fromMessages([bmg.Message(b'', 'hi'), bmg.Message(b'', [], True)], ins, labels, scripts, id=7)
    b.endianness = order
    if ins and e.bool('object'):
        b.instructions = ins[:-1] + [Inst(ins[-1])]
    d = b.save()
    r = ref.read(e, d, order, 'utf-16')
    want = [b'INF1', b'DAT1']
    if ins or labels:
        want.append(b'FLW1')
    if scripts:
        want.append(b'FLI1')
    e.check_eq(r['magics'], want, 'sections')
    e.check(len(r['instructions']) >= len(ins) and len(r['labels']) >= len(labels), 'enough entries')
    for i in range(len(r['instructions'])):
        e.check_eq(r['instructions'][i], ins[i] if i < len(ins) else bytes(8), f'stored instruction {i}')
    for i in range(len(r['labels'])):
        w = labels[i] if i < len(labels) else (0, 0)
        e.check_eq(r['labels'][i], (w[0] & 0xFF, w[1] & 0xFFFF), f'stored label {i}')
    e.check_eq(r['scripts'], scripts, 'stored scripts')
    c = bmg.BMG(d)
    same(e, c, order, ins, labels, scripts)
    e.check_eq(c.messages[0].stringParts, ['hi'], 'messages')
    e.check(c.messages[1].isNull, 'messages')
    e.check_eq(c.id, 7, 'ID')
    e.check_eq(c.save(), d, 'saving again gives the same file')


def same(e, c, order, ins, labels, scripts):
    e.check(c.endianness == order, 'byte order')
    e.check(len(c.instructions) == len(ins), 'number of instructions')
    e.check(len(c.labels) == len(labels), 'number of labels')
    for i in range(len(ins)):
        e.check_eq(c.instructions[i], ins[i], f'instruction {i}')
    for i in range(len(labels)):
        e.check_eq(c.labels[i], labels[i], f'label {i}')
    e.check_eq(c.scripts, scripts, 'scripts')


def foreign(e, order, n):
    ins, labels, scripts = content(e, n)
    d = ref.write(order, 'utf-8', 3, [0, 0, 0], [(1, b'')], b'\0A\0', ins, [(a & 255, b & 0xFFFF) for a, b in labels],
                  scripts, e.bool('swap'))
    b = bmg.BMG(d)
    same(e, b, order, ins, labels, scripts)
    same(e, bmg.BMG(b.save()), order, ins, labels, scripts)
    e.check_eq(b.messages[0].stringParts, ['A'], 'messages')


def badlen(e):
    n = e.pick('n', 0, 10)
    b = bmg.BMG.fromMessages([], [bytes(8), e.bytes('i', n)])
    r = e.raises(ValueError, b.save) is not None
    e.check(r == (n != 8), 'instructions have 8 bytes')


def badorder(e):
    b = bmg.BMG()
    b.endianness = e.choice('o', ['=', 'le', '@'])
    e.check(e.raises(ValueError, b.save) is not None, 'unknown byte orders are rejected')


def section(e):
    d = bytearray(bmg.BMG().save())
    d[0x20:0x24] = e.bytes('m', 4)
    known = [bytes(d[0x20:0x24]) == m for m in (b'INF1', b'DAT1', b'FLW1', b'FLI1')]
    # the section's entry length is 4
    e.assume(bytes(d[0x20:0x24]) != b'FLI1')
    r = e.raises(ValueError, bmg.BMG, bytes(d)) is not None
    e.check(r == (e.any(known) == False), 'unknown sections are rejected')
