#!/usr/bin/env python3
"""
Differential test of the symbolic engine: random small programs are run
symbolically, and every explored path is replayed concretely on ordinary
Python values; the observations have to agree.

    python3-vt symx/selftest.py [count] [seed]
"""

import importlib.util
import os
import random
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from symx import concrete, engine, values, loader as ldr   # noqa: E402


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.ints, self.bts, self.bas, self.strs, self.bools = [], [], [], [], []
        self.lines = []
        self.n = 0

    def new(self, kind):
        self.n += 1
        nm = f'{kind}{self.n}'
        {'i': self.ints, 'b': self.bts, 'a': self.bas, 's': self.strs, 'c': self.bools}[kind].append(nm)
        return nm

    def I(self):
        r = self.r
        if r.random() < 0.25 or not self.ints:
            return str(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 127, 128, 255, 256, -1, -2, 0x1FF, 0xFFFF, 65536]))
        return r.choice(self.ints)

    def C(self):
        return str(self.r.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 255, 256, 511, 4096]))

    def sm(self):
        return self.r.choice(['0', '1', '2', '3', '-1', '-2', '', '4', self.I()])

    def B(self):
        r = self.r
        if r.random() < 0.15 or not self.bts:
            return r.choice(["b''", "b'\\x00'", "b'ab'", "b'\\xff\\x01\\x02'", "b'aab'"])
        return r.choice(self.bts + self.bas)

    def S(self):
        r = self.r
        if r.random() < 0.2 or not self.strs:
            return r.choice(["''", "'a'", "'/'", "'ab'"])
        return r.choice(self.strs)

    def stmt(self):
        r = self.r
        k = r.randrange(40)
        I, B, S, C = self.I, self.B, self.S, self.C
        if k < 5:
            e = f'{I()} {r.choice("+-")} {I()}'
            return 'i', e
        if k == 5:
            return 'i', f'{I()} * {r.choice([C(), I()])}'
        if k == 6:
            return 'i', f'{I()} {r.choice(["//", "%"])} {r.choice([C(), C(), I()])}'
        if k in (7, 8):
            return 'i', f'{I()} {r.choice("&|^")} {r.choice([C(), I(), "0xF0", "~3", "-4"])}'
        if k == 9:
            return 'i', f'{I()} {r.choice(["<<", ">>"])} {r.choice(["1", "3", "8", "16", "(" + I() + " & 3)"])}'
        if k == 10:
            return 'i', r.choice([f'~{I()}', f'-{I()}', f'abs({I()})', f'({I()}).bit_length()', f'min({I()}, {I()})', f'max({I()}, {I()}, 3)', f'divmod({I()}, {C()})[0]'])
        if k in (11, 12):
            return 'c', f'{I()} {r.choice(["<", "<=", "==", "!=", ">", ">="])} {I()}'
        if k == 13:
            return 'c', f'{B()} {r.choice(["==", "!=", "in", "<"])} {B()}'
        if k == 14:
            return 'i', f'{I()} if {r.choice(self.bools) if self.bools else I()} else {I()}'
        if k in (15, 16):
            return 'b', f'{B()}[{self.sm()}:{self.sm()}]'
        if k == 17:
            return 'i', f'{B()}[{I()}]'
        if k == 18:
            return 'b', f'bytes({B()} + {B()})'
        if k == 19:
            return 'i', f'{B()}.{r.choice(["find", "rfind", "index", "count"])}({r.choice([B(), I()])})'
        if k == 20:
            f, a = r.choice([('<H', 1), ('>H', 1), ('<I', 1), ('<h', 1), ('<BB', 2), ('>i', 1), ('<HxB', 2), ('<3sB', 0), ('b', 1), ('<II', 2)])
            if f == '<3sB':
                return 'b', f'struct.pack({f!r}, bytes({B()}), {I()} & 255)'
            return 'b', f'struct.pack({f!r}, {", ".join(I() for _ in range(a))})'
        if k == 21:
            f = r.choice(['<H', '>H', '<I', '<h', '>i', '<BB', 'b', '<xH'])
            return 'i', f'sum(struct.unpack_from({f!r}, {B()}, {r.choice(["0", "0", "1", I()])}))'
        if k == 22:
            return 'i', f'int.from_bytes({B()}[:{C()}], {r.choice(["little", "big"])!r}, signed={r.random() < .3})'
        if k == 23:
            return 'b', f'({I()}).to_bytes({r.randrange(1, 5)}, {r.choice(["little", "big"])!r}, signed={r.random() < .3})'
        if k == 24:
            return 'a', f'bytearray({r.choice([B(), B(), I() + " & 7"])})'
        if k in (25, 26, 27) and self.bas:
            a = r.choice(self.bas)
            return 'x', r.choice([
                f'{a}.append({I()})', f'{a}.extend({B()})', f'{a}[{I()}] = {I()} & 255', f'{a}[{self.sm()}:{self.sm()}] = {B()}',
                f'{a} += {B()}', f'del {a}[{self.sm()}:{self.sm()}]', f'{a}.insert({I()}, 7)', f'{a}.reverse()',
                f'struct.pack_into("<H", {a}, {I()}, {I()})'])
        if k == 28:
            return 'i', f'len({r.choice([B(), S()])})'
        if k == 29:
            return 'b', f'bytes([{I()} & 255, {I()} % 256])'
        if k == 30:
            return 's', f'{S()} + {S()}'
        if k == 31:
            return 's', f'{S()}[{self.sm()}:{self.sm()}]'
        if k == 32:
            return 'b', f'{S()}.encode({r.choice(["ascii", "latin-1", "utf-8", "utf-16-le", "utf-16-be", "cp1252"])!r})'
        if k == 33:
            return 's', f'bytes({B()}).decode({r.choice(["ascii", "latin-1", "utf-8", "utf-16-le", "cp1252"])!r})'
        if k == 34:
            return 'c', f'{S()} {r.choice(["==", "in", "<"])} {S()}'
        if k == 35:
            return 'i', f'len({S()}.split("/"))'
        if k == 36:
            return 'b', f'bytes({B()}.{r.choice(["rstrip", "lstrip", "strip"])}({r.choice(["b" + repr(chr(0)), B()])}))'
        if k == 37:
            return 'i', f'sum(x * (j + 1) for j, x in enumerate({B()}))'
        if k == 38:
            return 'b', f'{B()} * ({I()} & 3)'
        if k == 39:
            return 'i', f'{{1: 5, 2: 6, {I()}: 7}}.get({I()}, 9)'
        return 'i', f'{I()} + 1'

    def program(self, name):
        r = self.r
        L = [f'def {name}(e):']
        for _ in range(r.randrange(1, 4)):
            nm = self.new('i')
            lo, hi = r.choice([(0, 255), (0, 3), (-5, 5), (0, 65535), (1, 300), (-128, 127), (0, 70000), (-2**31, 2**31 - 1), (0, 2**32 - 1)])
            L.append(f'    {nm} = e.int({nm!r}, {lo}, {hi})')
        for _ in range(r.randrange(1, 3)):
            nm = self.new('b')
            if r.random() < 0.4 and 'e.blob' not in ''.join(L):
                L.append(f'    {nm} = e.blob({nm!r}, {r.randrange(0, 2)}, {r.randrange(2, 9)})')
            else:
                L.append(f'    {nm} = e.bytes({nm!r}, {r.randrange(0, 6)})')
        if r.random() < 0.4:
            nm = self.new('s')
            L.append(f'    {nm} = e.str({nm!r}, {r.randrange(0, 4)}, {r.choice(["0x20, 0x7E", "0x2D, 0x31", "0x61, 0x63", "0x10, 0x2FF"])})')
        if r.random() < 0.3:
            L.append(f'    {self.new("c")} = e.bool("cc")')
        for _ in range(r.randrange(3, 9)):
            kind, ex = self.stmt()
            if kind == 'x':
                L += ['    try:', f'        {ex}', f'    except EXC as ex:', '        e.out("exc", type(ex).__name__)',
                      '        return']
            else:
                if r.random() < 0.15 and kind == 'i' and self.ints:
                    c = r.choice(self.bools) if self.bools else f'{self.I()} > {self.I()}'
                    nm = r.choice(self.ints)
                    L += ['    try:', f'        if {c}:', f'            {nm} = {ex}', '        else:',
                          f'            {nm} = {self.I()}']
                else:
                    tgt = f'{kind}{self.n + 1}'
                    L += ['    try:', f'        {tgt} = {ex}']
                    nm = None
                L += ['    except EXC as ex:', '        e.out("exc", type(ex).__name__)', '        return']
                if nm is None:
                    nm = self.new(kind)
            for a in ([nm] if kind != 'x' else self.bas):
                L.append(f'    e.out({a!r}, {a})')
        L.append('    e.check(True, "reached")')
        return '\n'.join(L)


HEAD = '''import struct
EXC = (TypeError, ValueError, IndexError, KeyError, OverflowError, struct.error, ZeroDivisionError, UnicodeError, BufferError)

'''


def main(count, seed, budget=None):
    rng = random.Random(seed)
    progs = [Gen(rng).program(f'p{i}') for i in range(count)]
    src = HEAD + '\n\n'.join(progs) + '\n'
    d = tempfile.mkdtemp(prefix='symx-self-')
    path = os.path.join(d, 'prog.py')
    with open(path, 'w') as f:
        f.write(src)
    loader = ldr.Loader(os.environ.get('NDSPY_REPO', '/repo'))
    sym = loader.load_file('selfprog', path)
    spec = importlib.util.spec_from_file_location('selfprog_plain', path)
    plain = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(plain)
    os.remove(path)
    os.rmdir(d)
    fpath = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'features.py')
    fsym = loader.load_file('features', fpath)
    from symx import features
    todo = [(progs[i], getattr(sym, f'p{i}'), getattr(plain, f'p{i}')) for i in range(count)]
    todo[:0] = [(f.__name__, getattr(fsym, f.__name__), f) for f in features.PROGRAMS]
    bad = paths = 0
    t0 = time.time()
    for i, (title, symfn, plainfn) in enumerate(todo):
        if budget and time.time() - t0 > budget:
            todo = todo[:i]
            break
        values.FIND_FAST = 48 if i % 2 else 0
        n, errs = compare(loader, symfn, plainfn)
        paths += n
        if errs:
            bad += 1
            if bad <= 4:
                print(title)
                print(errs[0][0], '\n ', errs[0][1])
    print(f'self-test: {len(todo)} programs, {paths} paths compared, {bad} disagreements, {time.time() - t0:.1f} s')
    return 1 if bad else 0


def compare(loader, symfn, plainfn):
    """Run symfn symbolically and plainfn on the values of every path."""
    from vrun import same
    errs = []

    def validate(ex):
        inputs = ex.model_inputs()
        c = concrete.Concrete(inputs)
        try:
            plainfn(c)
        except BaseException as x:
            errs.append((inputs, f'concrete {type(x).__name__} {x}'))
            return
        want = [(k, engine.materialize(v, ex.model)) for k, v in ex.outs]
        if not same(want, c.outs):
            errs.append((inputs, f'symbolic {want!r:.600}\n  concrete {c.outs!r:.600}'))

    ex = engine.Explorer(loader, max_paths=40, validate=validate, timeout_ms=2000,
                         deadline=time.time() + 5, max_values=30)
    try:
        ex.run(symfn)
    except Exception:
        import traceback
        errs.append(({}, 'engine: ' + traceback.format_exc()[-1500:]))
    for v in ex.violations:
        errs.append((v['inputs'], 'symbolic: ' + v['msg'] + '\n' + (v['tb'] or '')[-1200:]))
    for x in ex.stats.inconclusive:
        if 'determin' in x:
            errs.append(({}, x))
    return ex.stats.paths, errs


if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    s = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    sys.exit(main(n, s, None if len(sys.argv) > 1 else 60))
