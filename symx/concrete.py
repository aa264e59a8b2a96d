"""
Concrete execution of a harness against the unmodified package: used to
replay counterexamples and to validate the symbolic encoding.
No solver is needed here.
"""

import os
import shutil
import tempfile


class CheckFailed(BaseException):
    pass


class Unmet(BaseException):
    """An assumption of the harness does not hold for these inputs."""


PERIOD = 16381


def blob_default(name, idx):
    """Contents of opaque blobs where a model leaves them open: varied
    and never zero, so that distinct blobs differ."""
    idx %= PERIOD
    h = 2166136261
    for ch in name.encode():
        h = ((h ^ ch) * 16777619) & 0xFFFFFFFF
    h = ((h ^ (idx & 0xFFFFFFFF)) * 2654435761) & 0xFFFFFFFF
    h ^= h >> 15
    h = (h * 2246822519) & 0xFFFFFFFF
    h ^= h >> 13
    return 1 + (h % 255)


class Concrete:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.outs = []
        self.nchecks = 0
        self.tmp = None
        self.stats = None

    def close(self):
        if self.tmp:
            os.chdir(self.cwd)
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def int(self, name, lo, hi):
        if name not in self.inputs:
            return lo
        v = self.inputs[name]
        if not lo <= v <= hi:
            raise Unmet(name)
        return v

    def bool(self, name):
        return self.inputs.get(name, False)

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def bytes(self, name, n, nonzero=False):
        if name not in self.inputs:
            return bytes(n)
        b = bytes.fromhex(self.inputs[name])
        if len(b) != n:
            raise Unmet(name)
        return b

    def str(self, name, n, lo=0x20, hi=0x7E, exclude=''):
        cs = self.inputs.get(name)
        if cs is None:
            cs = [lo] * n
        s = ''.join(map(chr, cs))
        if any(ch in s for ch in exclude):
            raise Unmet(name)
        return s

    def blob(self, name, lo, hi):
        n = self.int(name + '#len', lo, hi)
        b = bytearray(blob_default(name, i) for i in range(min(n, PERIOD)))
        if n > PERIOD:
            b = (b * (n // PERIOD + 1))[:n]
        ov = self.inputs.get(name, {}).get('overrides', {})
        for i, v in ov.items():
            b[int(i)] = v
        return bytes(b)

    def assume(self, cond):
        if not cond:
            raise Unmet('assumption')

    def check(self, cond, msg):
        self.nchecks += 1
        if not cond:
            raise CheckFailed(msg)

    def fail(self, msg):
        self.check(False, msg)

    def eq(self, a, b):
        return deep_eq(a, b)

    def check_eq(self, a, b, msg):
        if not deep_eq(a, b):
            self.check(False, f'{msg}: {short(a)} vs {short(b)}')
        self.nchecks += 1

    def check_all(self, conds, msg):
        self.check(all(conds), msg)

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def out(self, name, value):
        self.outs.append((name, snapshot(value)))

    def skip(self):
        raise Unmet('skipped')

    def raises(self, excs, fn, *a, **kw):
        try:
            self.result = fn(*a, **kw)
        except excs as ex:
            self.result = None
            return ex
        return None

    def note(self, s):
        pass

    def path(self, name):
        if self.tmp is None:
            # relative paths made by the code under test stay in here too
            self.tmp = tempfile.mkdtemp(prefix='symx-')
            self.cwd = os.getcwd()
            os.chdir(self.tmp)
        return os.path.join(self.tmp, name)

    def readfile(self, p):
        if not os.path.exists(p):
            return None
        with open(p, 'rb') as f:
            return f.read()

    def writefile(self, p, data):
        with open(p, 'wb') as f:
            f.write(data)

    def concrete(self, x):
        return x


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


def snapshot(v):
    if isinstance(v, bytearray):
        return bytes(v)
    if isinstance(v, dict):
        return {'d': [(snapshot(k), snapshot(x)) for k, x in v.items()]}
    if isinstance(v, (set, frozenset)):
        return [snapshot(x) for x in sorted(v)]
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    if hasattr(v, 'tobytes') and hasattr(v, 'size') and hasattr(v, 'mode'):
        return [v.mode, list(v.size), snapshot(v.tobytes())]
    return v


def deep_eq(a, b):
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and deep_eq(a[k], b[k]) for k in a)
    return a == b
