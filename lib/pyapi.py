"""What a Python harness (harness/py/*.py) sees.  The same harness runs symbolically (lib/pysym.py) and, for the replay of counterexamples
and witnesses, on the real modules with concrete values (lib/pyreplay.py)."""
import os, sys, types, importlib

REPO = os.environ.get("VERIF_REPO", "/repo")
PYREF = os.path.join(REPO, "pythonref")


class Api:
    def __init__(self, params):
        self.p = params
        self._patches = []

    def patch(self, obj, name, val):
        self._patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def unpatch(self):
        while self._patches:
            o, n, v = self._patches.pop()
            setattr(o, n, v)

    def once(self, key, f):
        d = self.__dict__.setdefault("_once", {})
        if key not in d:
            d[key] = f()
        return d[key]

    def bytes(self, n):
        return self.mkbytes([self.int(0, 255) for _ in range(n)])

    def ints(self, n, lo, hi):
        return [self.int(lo, hi) for _ in range(n)]

    def attempt(self, f, *exc):
        """(value, None) or (None, exception of one of the given classes)"""
        try:
            return f(), None
        except exc as e:
            return None, e


class Replay(Api):
    sym = False

    def __init__(self, params, vals, out):
        Api.__init__(self, params)
        self.vals, self.i, self.out = vals, 0, out
        self.failed = False
        self._stubs = {}

    def int(self, lo, hi):
        v = self.vals[self.i] if self.i < len(self.vals) else lo
        self.i += 1
        return v
    byte = lambda self: self.int(0, 255)
    pick = int

    def stubs(self, d):
        for k, m in d.items():
            sys.modules[k] = m

    def load(self, name):
        if PYREF not in sys.path:
            sys.path.insert(0, PYREF)
        return importlib.import_module(name)

    def assume(self, c):
        if not c:
            self.out("REPLAY-ASSUME false")
            raise SystemExit(0)

    def check(self, c, msg):
        if not c:
            self.failed = True
            self.out("REPLAY-FAIL " + msg)

    def wit(self, msg, c=True):
        if c:
            self.out("REPLAY-HIT " + msg)

    def mkbytes(self, l):
        return bytes(l)

    def frombytes(self, l, order="little"):
        return int.from_bytes(bytes(l), order)

    def tobytes(self, v, n, order="little"):
        return list(v.to_bytes(n, order))

    def cond(self, c):
        return bool(c)

    must = cond

    def ite(self, c, x, y):
        return x if c else y

    def alleq(self, x, y):
        """whether two sequences are equal, as one condition"""
        return len(x) == len(y) and all(p == q for p, q in zip(x, y))

    def andc(self, *cs):
        return all(cs)

    def orc(self, *cs):
        return any(cs)

    def notc(self, c):
        return not c

    def gfint(self, nbits):
        return self.int(0, (1 << nbits) - 1)

    def gfbytes(self, n):
        return bytes(self.int(0, 255) for _ in range(n))

    def gfeq(self, x, y, msg):
        self.check(self.alleq(list(x), list(y)), msg)

    def hidden(self, n):
        raise Exception("no hidden values in a replay")

    def uf(self, name, data, nout, real):
        return real(data)
