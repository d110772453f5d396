"""Python back end: the real modules of /repo/pythonref are executed by CPython with symbolic values (proxies for int, bytes, str).

Arithmetic is exact (bit-vectors as wide as the value's range needs), a branch on a symbolic condition forks when both sides are feasible
(the harness is re-executed per path), z3 decides branches and checks.  The modules are loaded from source on every run; names that cannot be
proxied by inheritance (int, bin, bytes, format, ...) are shadowed in the namespaces of the loaded modules, and packages outside the
repository (numpy, Crypto, polyntt, eth_abi) are replaced by stubs given by the harness."""
import ast, builtins, os, sys, time, types
import symcore as sc
from symcore import V, Inconclusive
import gf2
from vpcore import REPO

PYREF = os.path.join(REPO, "pythonref")


class Control(BaseException):
    pass


class Killed(Control):
    """the path ends here (infeasible assumption)"""


class Give(Control):
    """cannot continue: inconclusive"""


EX = None         # the running explorer


class RandVals(dict):
    """an arbitrary, fixed value within its range for every input"""

    def __init__(self, solver, seed):
        self.solver, self.seed = solver, seed

    def get(self, v, default=None):
        x = dict.get(self, v)
        if x is None:
            import random, z3
            t = sc._const_of[v]
            if z3.is_bool(t):
                x = z3.BoolVal(False)
            else:
                lo, hi = self.solver.hint.get(v, (0, 255))
                x = z3.BitVecVal(random.Random("%s.%s" % (self.seed, t)).randint(lo, hi) & ((1 << t.size()) - 1), t.size())
            self[v] = x
        return x


class Explorer:
    def fingerprint(self, xs):
        """values of xs under an arbitrary assignment that meets the path condition; None if there is none at hand"""
        if not hasattr(self, "rand"):
            self.rand = [sc.Mod(RandVals(self.solver, i)) for i in range(3)]
        if self.fpc[0] > len(self.pc) or self.fpc[1] is None:
            return None
        n, m = self.fpc
        while n < len(self.pc) or m == -1:
            m = max(m, 0)
            for k in range(m, 3):
                if all(self.holds(self.rand[k], p) for p in (self.pc if k > m else self.pc[n:])):
                    break
            else:
                self.fpc = (len(self.pc), None)
                return None
            m, n = k, len(self.pc)
        self.fpc = (n, m)
        return tuple(x if isinstance(x, int) else sc.model_val(self.rand[m], x, 8) for x in xs)

    def __init__(self, timeout_ms=120000, max_paths=20000):
        self.solver = sc.PathSolver(timeout_ms)
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.paths = self.branches = self.obligations = self.discharged = 0
        self.failures, self.checks, self.witness = [], {}, {}
        self.used = set()
        self.notes, self.trace, self.gfpath = [], False, None
        self.folded, self.asked = None, set()

    # -- one path
    def begin(self, prefix, model=None):
        self.dec, self.k = list(prefix), 0
        self.known = model        # a model of the path condition at the end of the prefix
        self.pc, self.inputs, self.model = [], [], sc.Mod({})
        self.stale = False
        self.uf, self.nhid = {}, 0
        self.fpc = (0, -1)
        self.products = []

    def product(self, x, y):
        """an earlier product of the same values, so that equal products are one term whatever way the factors were written"""
        for p, q, r in self.products:
            for u, v in ((p, q), (q, p)):
                if u is x and v is y:
                    return r
        for p, q, r in self.products[-64:]:
            for u, v in ((p, q), (q, p)):
                e = u == x
                e = cond(e) if e is not True else True
                f = v == y
                f = cond(f) if f is not True else True
                c = sc.b_and(e, f)
                if c is True:
                    return r
                if c is False or not self.likely(c):
                    continue
                if self.must(c):
                    return r
                if p is q:
                    break
        return None

    def likely(self, c):
        """c holds in the model of this path and for a few arbitrary inputs of it"""
        import random, z3
        if not self.holds(self.getmodel(), c):
            return False
        rnd = random.Random(5)
        cv = sc.vars_of(c)
        rel = [p for p in self.pc if sc.vars_of(p) & cv]
        vs = set(cv)
        for p in rel:
            vs |= sc.vars_of(p)
        hits = 0
        for k in range(24):
            d = {}
            for v in vs:
                lo, hi = self.solver.hint.get(v, (0, 255))
                t = sc._const_of[v]
                if not z3.is_bool(t):
                    b = (hi - lo) >> (2 * (k % 6))
                    d[v] = z3.BitVecVal(min(max(rnd.randint(-b, b) if lo < 0 else lo + rnd.randint(0, b), lo), hi) & ((1 << t.size()) - 1), t.size())
            m = sc.Mod(d)
            if all(self.holds(m, p) for p in rel):
                if not self.holds(m, c):
                    return False
                hits += 1
                if hits == 3:
                    break
        return True

    def holds(self, m, c):
        import z3
        return z3.is_true(m.eval(c))

    def getmodel(self):
        if self.stale:
            m = self.known if self.known is not None and self.k >= len(self.dec) else self.solver.check(self.pc)
            self.known = None
            if m is None:
                raise Killed()
            self.model, self.stale = m, False
        return self.model

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Killed()
        if self.k < len(self.dec):
            self.pc.append(c)          # replaying a feasible prefix
            self.stale = True
            return
        m = self.getmodel()
        if not self.holds(m, c):
            m = self.solver.check(self.pc, c, base=m)
            if m is None:
                raise Killed()
            self.model = m
        self.pc.append(c)

    def fork(self, c):
        if isinstance(c, bool):
            return c
        self.branches += 1
        if self.k < len(self.dec):
            v = self.dec[self.k]
            self.k += 1
            if v in (0, 1):
                self.pc.append(c if v else sc.b_not(c))
                self.stale = True
            else:                       # decided: the other side is infeasible
                return v == 3
            return bool(v)
        m = self.getmodel()
        side = self.holds(m, c)
        o = self.solver.check(self.pc, sc.b_not(c) if side else c, base=m)
        self.k += 1
        if o is None:
            self.dec.append(3 if side else 2)
            return side
        self.todo.append((self.dec + [0 if side else 1], o))
        self.dec.append(1 if side else 0)
        self.pc.append(c if side else sc.b_not(c))
        return side

    def must(self, c):
        """whether c holds whatever the inputs of this path"""
        if isinstance(c, bool):
            return c
        if self.k < len(self.dec):
            self.k += 1
            return self.dec[self.k - 1] == 3
        m = self.getmodel()
        try:
            r = self.holds(m, c) and self.solver.check(self.pc, sc.b_not(c), base=m, quick=8000) is None
        except Inconclusive:
            r = False
        self.k += 1
        self.dec.append(3 if r else 2)
        return r

    def run(self, api, fn):
        global EX
        self.todo = [([], None)]
        first = True
        t0 = None
        while self.todo:
            if self.failures:
                t0 = t0 or time.time()
                if time.time() - t0 > 10:
                    return             # enough to report
            if self.paths >= self.max_paths:
                raise Inconclusive("more than %d paths" % self.max_paths)
            self.begin(*self.todo.pop())
            EX = self
            try:
                if first:
                    sys.setprofile(self._prof)
                fn(api)
                self.paths += 1
            except Killed:
                pass
            except (Inconclusive, Give):
                if self.failures:
                    return
                raise
            except Exception as e:
                self.paths += 1
                import traceback
                self.notes.append(traceback.format_exc())
                if self.trace:
                    traceback.print_exc()
                self.check(False, "exception %s" % type(e).__name__)
            finally:
                sys.setprofile(None)
                first = False
                api.unpatch()
                EX = None

    def _prof(self, fr, ev, arg):
        if ev == "call":
            f = fr.f_code.co_filename
            if f.startswith(PYREF) and not fr.f_code.co_name.startswith("<"):
                self.used.add("%s:%s" % (os.path.relpath(f, PYREF), fr.f_code.co_qualname))

    # -- obligations
    def check(self, ok, msg):
        if self.k < len(self.dec):
            return                     # discharged on the path this one branched from
        self.obligations += 1
        self.checks[msg] = self.checks.get(msg, 0) + 1
        bad = sc.b_not(ok) if not isinstance(ok, bool) else not ok
        if bad is False:
            self.discharged += 1
            if self.folded is not None and msg not in self.asked:
                # equal after normalisation: the unsimplified equality is put to the solver once per obligation
                self.asked.add(msg)
                import z3
                if self.solver.check([], z3.Not(z3.And(*self.folded))) is not None:
                    raise Give("normalisation error in " + msg)
            return
        m = self.getmodel()
        if bad is not True:
            m = self.solver.check(self.pc, bad, base=m)
            if m is None:
                self.discharged += 1
                return
        if self.nhid:
            # values of unknown functions are not those of the real ones: rather an arbitrary input than one with coincidences
            for k in range(6):
                r = sc.Mod(RandVals(self.solver, "c%d" % k))
                if all(self.holds(r, p) for p in self.pc) and (bad is True or self.holds(r, bad)):
                    m = r
                    break
        if sum(f[0] == msg for f in self.failures) < 3:
            m = self.generic(m, bad)
            self.failures.append((msg, self.values(m)))

    prefer = None

    def generic(self, m, c):
        """a model of c that also meets the preferences, if there is one"""
        if self.prefer is None:
            return m
        p = cond(self.prefer())
        if isinstance(p, bool) or self.holds(m, p):
            return m
        try:
            r = self.solver.check(self.pc, p if c is True else sc.b_and(c, p), base=m, quick=20000)
        except Inconclusive:
            r = None
        return m if r is None else r

    def values(self, m):
        return [x.value(m) if isinstance(x, SymInt) else 0 if isinstance(x, tuple) else x for x in self.inputs]

    def wit(self, ok, msg):
        self.witness.setdefault(msg, None)
        if self.k < len(self.dec):
            return
        if self.witness[msg] is not None or ok is False:
            return
        m = self.getmodel()
        if ok is not True:
            m = self.solver.check(self.pc, ok, base=m)
            if m is None:
                return
        m = self.generic(m, ok)
        self.witness[msg] = self.values(m)

    # -- inputs
    def new(self, lo, hi):
        if lo == hi:
            self.inputs.append(lo)
            return lo
        w = width(lo, hi)
        n = "i%d" % len(self.inputs)
        x = SymInt(sc.var(n, w), w, lo, hi)
        full = (lo >= 0 and lo == 0 and hi == (1 << w) - 1) or (lo < 0 and lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1)
        self.inputs.append(x)
        t = x.v.z() if isinstance(x.v, V) else x.v
        self.solver.hint[t.get_id()] = (lo, hi)
        if not full:
            # ranges are checked on plain bit-vectors
            c = sc.b_and(sc.ule(lo, x.v, w), sc.ule(x.v, hi, w)) if lo >= 0 else sc.b_and(
                sc.sle(lo & ((1 << w) - 1), x.v, w), sc.sle(x.v, hi, w))
            self.assume(c)
        return x


def width(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max(hi.bit_length(), (-lo - 1).bit_length()) + 1


def mk(v, w, lo, hi):
    """value v of w bits (two's complement when lo < 0) known to be in [lo, hi]"""
    if not isinstance(v, V):
        if lo < 0:
            v = sc.to_signed(v, w)
        return v
    if lo == hi:
        return lo
    w2 = width(lo, hi)
    if w2 < w:
        v, w = sc.trunc(v, w, w2), w2
    elif w2 > w:
        v, w = (sc.sext if lo < 0 else sc.zext)(v, w, w2), w2
    if not isinstance(v, V):
        return sc.to_signed(v, w) if lo < 0 else v
    return SymInt(v, w, lo, hi)


def terms(x):
    """constant and {key: (atom, coefficient)}"""
    if not isinstance(x, SymInt):
        return int(x), {}
    if x.lin is not None:
        return x.lin
    v = x.v
    if not isinstance(v, V):
        return (sc.to_signed(v, x.w) if x.lo < 0 else v), {}
    return 0, {tuple((-1, n, p) if t is None else (t, n, p) for t, n, p in vkey(x)) + ((x.w, x.lo < 0, 0),): (x, 1)}


def linear(x, cx, y, cy):
    """cx x + cy y"""
    if cx == 1 and cy == 1:
        for p, q in ((x, y), (y, x)):
            # disjoint bits: p is a multiple of 2^n, q below 2^n
            if type(p) is SymInt:
                if p.lin is not None or p.lo < 0 or not isinstance(p._v, V):
                    continue
                s = sc.segs(p._v, p.w)[0]
                if s[0] is not None:
                    continue
                n, phi = s[1] if not s[2] else (s[2] & -s[2]).bit_length() - 1, p.hi
            elif type(p) is int and p > 0:
                n, phi = (p & -p).bit_length() - 1, p
            else:
                continue
            if type(q) is SymInt:
                if q.lin is not None or q.lo < 0 or q.hi >> n:
                    continue
                qlo, qhi = q.lo, q.hi
            elif type(q) is int and 0 < q < 1 << n:
                qlo = qhi = q
            else:
                continue
            phi = phi >> n << n
            w = max(phi.bit_length(), qhi.bit_length())
            return mk(sc.or_(at(p, w), at(q, w), w), w, (p.lo if type(p) is SymInt else p) + qlo, phi + qhi)
    (k1, t1), (k2, t2) = terms(x), terms(y)
    k = cx * k1 + cy * k2
    if len(t1) < len(t2):
        t1, t2, cx, cy = t2, t1, cy, cx
    t = dict(t1) if cx == 1 else {i: (a, cx * c) for i, (a, c) in t1.items()}
    for i, (a, c) in t2.items():
        n = cy * c + (t[i][1] if i in t else 0)
        if n:
            t[i] = (a, n)
        else:
            del t[i]
    if not t:
        return k
    if len(t) == 1 and k == 0:
        (a, c), = t.values()
        if c == 1:
            return a
    lo = hi = k
    for a, c in t.values():
        p, q = c * a.lo, c * a.hi
        lo, hi = lo + min(p, q), hi + max(p, q)
    if lo == hi:
        return lo
    return SymInt(None, width(lo, hi), lo, hi, (k, t))


def isint(x):
    return isinstance(x, (int, SymInt, SymBool)) and not isinstance(x, float)


def rng(x):
    return (x.lo, x.hi) if isinstance(x, SymInt) else (int(x), int(x))


def at(x, w):
    """x as w bits"""
    if isinstance(x, SymInt):
        if w <= x.w:
            return sc.trunc(x.v, x.w, w)
        return (sc.sext if x.lo < 0 else sc.zext)(x.v, x.w, w)
    return int(x) & ((1 << w) - 1)


def lift(x):
    if isinstance(x, SymBool):
        return x.asint()
    return x


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return EX.fork(self.c)

    def asint(self):
        return mk(sc.bit(self.c), 1, 0, 1)

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkb(sc.b_and(self.c, o.c if isinstance(o, SymBool) else o))
        return self.asint() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkb(sc.b_or(self.c, o.c if isinstance(o, SymBool) else o))
        return self.asint() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkb(sc.b_xor(self.c, o.c if isinstance(o, SymBool) else o))
        return self.asint() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkb(sc.b_not(sc.b_xor(self.c, o.c if isinstance(o, SymBool) else o)))
        return self.asint() == o

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(bool(self))

    def _a(name):
        def f(self, o):
            return getattr(SymInt, name)(aswide(self), o)
        return f
    for _n in "add radd sub rsub mul rmul floordiv mod lshift rshift lt le gt ge".split():
        locals()["__%s__" % _n] = _a("__%s__" % _n)

    def __neg__(self):
        return -aswide(self)


def aswide(b):
    x = b.asint()
    return x if isinstance(x, SymInt) else SymInt(x, 1, x, x)


def mkb(c):
    return c if isinstance(c, bool) else SymBool(c)


def not_(x):
    if isinstance(x, SymBool):
        return mkb(sc.b_not(x.c))
    return not x


def cond(x):
    """condition of a value used as a truth value, without forking"""
    if isinstance(x, SymBool):
        return x.c
    if isinstance(x, SymInt):
        return sc.b_not(sc.eq(x.v, 0, x.w))
    return bool(x)


class SymInt:
    __slots__ = ("_v", "w", "lo", "hi", "lin")

    def __init__(self, v, w, lo, hi, lin=None):
        self._v, self.w, self.lo, self.hi, self.lin = v, w, lo, hi, lin

    @property
    def v(self):
        if self._v is None:
            # a sum: built in a canonical order
            k, t = self.lin
            w = self.w
            r = k & ((1 << w) - 1)
            for i in sorted(t):
                x, c = t[i]
                y = at(x, w)
                if c < 0:
                    r = sc.sub(r, y if c == -1 else sc.mul(y, (-c) & ((1 << w) - 1), w), w)
                else:
                    r = sc.add(r, y if c == 1 else sc.mul(y, c & ((1 << w) - 1), w), w)
            self._v = r
        return self._v

    def value(self, m):
        x = sc.model_val(m, self.v, self.w)
        return sc.to_signed(x, self.w) if self.lo < 0 else x

    def __repr__(self):
        return "<sym %d..%d>" % (self.lo, self.hi)
    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __bool__(self):
        return EX.fork(cond(self))

    def conc(self):
        """fork until the value is concrete"""
        if not isinstance(self.v, V):
            return self.v
        n = 0
        while True:
            if EX.k < len(EX.dec):
                # the value tried at this point is recorded before the decision
                x = EX.dec[EX.k][1]
                EX.k += 1
            else:
                x = self.value(EX.getmodel())
                EX.dec.append(("v", x))
                EX.k += 1
            if EX.fork(sc.eq(self.v, x & ((1 << self.w) - 1), self.w)):
                return x
            n += 1
            if n > 5000:
                raise Give("too many values")

    def __index__(self):
        return self.conc()
    __int__ = __index__

    def __float__(self):
        return float(self.conc())

    def __hash__(self):
        return hash(self.conc())

    # arithmetic
    def __add__(self, o):
        if isinstance(o, float):
            return self.conc() + o
        o = lift(o)
        if not isint(o):
            return NotImplemented
        return linear(self, 1, o, 1)
    __radd__ = __add__

    def __neg__(self):
        return linear(self, -1, 0, 1)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, float):
            return self.conc() - o
        o = lift(o)
        if not isint(o):
            return NotImplemented
        return linear(self, 1, o, -1)

    def __rsub__(self, o):
        if isinstance(o, float):
            return o - self.conc()
        o = lift(o)
        if not isint(o):
            return NotImplemented
        return linear(o, 1, self, -1)

    def __mul__(self, o):
        if isinstance(o, float):
            return self.conc() * o
        o = lift(o)
        if isinstance(o, (str, list, bytes, tuple, SymStr, SymBytes)):
            return o * self.conc()
        if not isint(o):
            return NotImplemented
        a, b = rng(self), rng(o)
        c = [x * y for x in a for y in b]
        lo, hi = min(c), max(c)
        if o is self:
            lo = max(lo, 0)
        if isinstance(o, SymInt) and EX is not None:
            r = EX.product(self, o)
            if r is not None:
                return r
        w = width(lo, hi)
        x, y = at(self, w), at(o, w)
        if isinstance(x, V) and isinstance(y, V) and x.z().get_id() > y.z().get_id():
            x, y = y, x
        r = mk(sc.mul(x, y, w), w, lo, hi)
        if isinstance(o, SymInt) and EX is not None:
            EX.products.append((self, o, r))
        return r
    __rmul__ = __mul__

    def __pow__(self, o, m=None):
        if m is not None:
            return builtins_pow(self, o, m)
        assert isinstance(o, int) and o >= 0
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __abs__(self):
        if self.lo >= 0:
            return self
        hi = max(-self.lo, self.hi)
        w = width(-hi, hi)
        x = at(self, w)
        return mk(sc.ite(sc.slt(x, 0, w), sc.sub(0, x, w), x, w), w, 0, hi)

    def _nonneg(self, m):
        """self + K*m >= 0 and K"""
        if self.lo >= 0:
            return self, 0
        K = (-self.lo + m - 1) // m
        return self + K * m, K

    def __mod__(self, m):
        m = lift(m)
        if isinstance(m, SymInt):
            if m.lo <= 0:
                if not EX.fork(sc.b_not(sc.eq(m.v, 0, m.w))):
                    raise ZeroDivisionError("integer modulo by zero")
                if m.lo < 0 and (m < 0):
                    raise Give("modulo by a negative symbolic value")
            if self.lo < 0 and (self < 0):
                raise Give("modulo of a negative value by a symbolic value")
            w = max(width(0, self.hi), width(0, m.hi))
            return mk(sc.urem(at(self, w), at(m, w), w), w, 0, min(self.hi, m.hi - 1))
        if m == 0:
            raise ZeroDivisionError("integer modulo by zero")
        if m < 0:
            return -((-self) % -m)
        if m & (m - 1) == 0:
            k = m.bit_length() - 1
            return mk(at(self, max(k, 1)), max(k, 1), 0, m - 1) if k else 0
        if self.lo >= 0 and self.hi < m:
            return self
        if self.lo >= -m and self.hi < m:
            w = width(self.lo, 2 * m)
            x = at(self, w)
            return mk(sc.ite(sc.slt(x, 0, w), sc.add(x, m, w), x, w), w, 0, m - 1)
        x, _ = self._nonneg(m)
        if not isinstance(x, SymInt):
            return x % m
        w = width(0, max(x.hi, m))
        return mk(sc.urem(at(x, w), m, w), w, 0, min(m - 1, x.hi))

    def __rmod__(self, o):
        o = lift(o)
        if not isint(o):
            return NotImplemented
        return aswide2(o) % self

    def __floordiv__(self, m):
        m = lift(m)
        if isinstance(m, SymInt):
            if m.lo <= 0:
                if not EX.fork(sc.b_not(sc.eq(m.v, 0, m.w))):
                    raise ZeroDivisionError("integer division or modulo by zero")
                if m.lo < 0 and (m < 0):
                    raise Give("division by a negative symbolic value")
            if self.lo < 0 and (self < 0):
                raise Give("division of a negative value by a symbolic value")
            w = max(width(0, self.hi), width(0, m.hi))
            return mk(sc.udiv(at(self, w), at(m, w), w), w, 0, self.hi)
        if m == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if m < 0:
            return (-self) // -m
        if m & (m - 1) == 0:
            return self >> (m.bit_length() - 1)
        x, K = self._nonneg(m)
        w = width(0, max(x.hi, m))
        return mk(sc.udiv(at(x, w), m, w), w, 0, x.hi // m) - K

    def __rfloordiv__(self, o):
        o = lift(o)
        return aswide2(o) // self

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        raise Give("float division of a symbolic value")
    __rtruediv__ = __truediv__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, k):
        if isinstance(k, SymInt):
            k = k.conc()
        if k < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo << k, self.hi << k
        w = width(lo, hi)
        return mk(sc.shl(at(self, w), k, w), w, lo, hi)

    def __rlshift__(self, o):
        return o << self.conc()

    def __rshift__(self, k):
        if isinstance(k, SymInt):
            k = k.conc()
        if k < 0:
            raise ValueError("negative shift count")
        if k >= self.w:
            return mk(sc.ashr(self.v, self.w, self.w), self.w, -1, 0) if self.lo < 0 else 0
        return mk((sc.ashr if self.lo < 0 else sc.lshr)(self.v, k, self.w), self.w, self.lo >> k, self.hi >> k)

    def __rrshift__(self, o):
        return o >> self.conc()

    def _bit(self, o, op):
        o = lift(o)
        if not isint(o):
            return NotImplemented
        a, b = rng(self), rng(o)
        if op == "and":
            if a[0] >= 0 and b[0] >= 0:
                lo, hi = 0, min(a[1], b[1])
            elif a[0] >= 0 or b[0] >= 0:
                lo, hi = 0, a[1] if a[0] >= 0 else b[1]
            else:
                w = max(width(*a), width(*b), 1)
                lo, hi = -(1 << w), (1 << w) - 1
        elif a[0] >= 0 and b[0] >= 0:
            lo, hi = 0, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
        else:
            w = max(width(min(a[0], -1), a[1]), width(min(b[0], -1), b[1]))
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        w = max(width(lo, hi), 1)
        f = sc.and_ if op == "and" else sc.or_ if op == "or" else sc.xor_
        return mk(f(at(self, w), at(o, w), w), w, lo, hi)

    def __and__(self, o):
        return self._bit(o, "and")
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, "or")
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, "xor")
    __rxor__ = __xor__

    # comparisons
    def _cmp(self, o, kind):
        o = lift(o)
        if isinstance(o, float):
            if o != int(o):
                import math
                o, kind = (math.floor(o), {"lt": "le"}.get(kind, kind)) if kind in ("lt", "le") else (math.ceil(o), {"gt": "ge"}.get(kind, kind))
            o = int(o)
        if not isint(o):
            return NotImplemented
        a, b = rng(self), rng(o)
        if kind == "lt":
            if a[1] < b[0]:
                return True
            if a[0] >= b[1]:
                return False
        else:
            if a[1] <= b[0]:
                return True
            if a[0] > b[1]:
                return False
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        w = width(lo, hi)
        x, y = at(self, w), at(o, w)
        f = {("lt", True): sc.slt, ("le", True): sc.sle, ("lt", False): sc.ult, ("le", False): sc.ule}[(kind, lo < 0)]
        return mkb(f(x, y, w))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        r = self._cmp(o, "le")
        return r if r is NotImplemented else not_(r)

    def __ge__(self, o):
        r = self._cmp(o, "lt")
        return r if r is NotImplemented else not_(r)

    def __eq__(self, o):
        o = lift(o)
        if o is self:
            return True
        if not isint(o):
            return False
        a, b = rng(self), rng(o)
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        if a[1] < b[0] or b[1] < a[0]:
            return False
        w = width(lo, hi)
        return mkb(sc.eq(at(self, w), at(o, w), w))

    def __ne__(self, o):
        return not_(self == o)

    # int interface
    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = int(length)
        top = 1 << (8 * length)
        if self.lo < 0 and (self < 0):
            if not signed:
                raise OverflowError("can't convert negative int to unsigned")
        lim = top >> 1 if signed else top
        if self.hi >= lim and (self >= lim):
            raise OverflowError("int too big to convert")
        if signed and self.lo < -lim and (self < -lim):
            raise OverflowError("int too big to convert")
        v = at(self, 8 * length)
        bs = [mk(sc.extract(v, 8 * i, 8), 8, 0, 255) for i in range(length)]
        return mkbytes(bs if byteorder == "little" else bs[::-1])

    def bit_length(self):
        return abs(self).conc().bit_length()

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    @property
    def real(self):
        return self


def aswide2(x):
    return x if isinstance(x, SymInt) else SymInt(int(x) & ((1 << width(int(x), int(x))) - 1), width(int(x), int(x)), int(x), int(x))


def builtins_pow(b, e, m=None):
    if m is None or not isinstance(e, int):
        return b ** e
    if e < 0:
        raise Give("negative modular power of a symbolic value")
    r = 1
    while e:
        if e & 1:
            r = r * b % m
        b = b * b % m
        e >>= 1
    return r


# ---- bytes ------------------------------------------------------------------
def mkbytes(bs):
    bs = list(bs)
    if all(isinstance(b, int) for b in bs):
        return bytes(bs)
    return SymBytes(bs)


def elems(x):
    if isinstance(x, (SymBytes, SymByteArray)):
        return list(x.b)
    if isinstance(x, (bytes, bytearray, memoryview)):
        return list(x)
    return None


class SymBytes:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = list(b)

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(list(self.b))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkbytes(self.b[k])
        return self.b[k]

    def __add__(self, o):
        e = elems(o)
        return NotImplemented if e is None else mkbytes(self.b + e)

    def __radd__(self, o):
        e = elems(o)
        return NotImplemented if e is None else mkbytes(e + self.b)

    def __mul__(self, k):
        return mkbytes(self.b * int(k))
    __rmul__ = __mul__

    def __eq__(self, o):
        e = elems(o)
        if e is None or len(e) != len(self.b):
            return False
        r = True
        for x, y in zip(self.b, e):
            r = r & (x == y) if isinstance(r, SymBool) else ((x == y) if r else False)
            if r is False:
                return False
        return r

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        raise Give("hash of symbolic bytes")

    def hex(self):
        out = []
        for x in self.b:
            out += [SymChar(x >> 4), SymChar(x & 15)]
        return mkstr(out)

    def __repr__(self):
        return "<bytes %d>" % len(self.b)


class SymByteArray:
    """bytearray"""
    __slots__ = ("b",)

    def __init__(self, x=b""):
        if isinstance(x, int):
            self.b = [0] * x
        else:
            e = elems(x)
            self.b = [bytecheck(v) for v in (list(x) if e is None else e)]

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(list(self.b))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymByteArray(SymBytes(self.b[k]))
        return self.b[k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            e = elems(v)
            self.b[k] = [bytecheck(x) for x in (list(v) if e is None else e)]
        else:
            self.b[k] = bytecheck(v)

    def __delitem__(self, k):
        del self.b[k]

    def append(self, v):
        self.b.append(bytecheck(v))

    def extend(self, v):
        self.b.extend(bytecheck(x) for x in v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        e = elems(o)
        return NotImplemented if e is None else SymByteArray(SymBytes(self.b + e))

    def __radd__(self, o):
        e = elems(o)
        return NotImplemented if e is None else mkbytes(e + self.b)

    __eq__ = SymBytes.__eq__
    __ne__ = SymBytes.__ne__
    hex = SymBytes.hex

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")


def bytecheck(v):
    v = lift(v)
    if isinstance(v, gf2.GFInt):
        if len(v.b) > 8:
            raise Give("byte range in the XOR domain")
        return v
    if isinstance(v, SymInt):
        if v.lo < 0 and (v < 0) or v.hi > 255 and (v > 255):
            raise ValueError("byte must be in range(0, 256)")
        return mk(at(v, 8), 8, 0, min(255, v.hi) if v.hi >= 0 else 255)
    if not isinstance(v, int):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if not 0 <= v <= 255:
        raise ValueError("byte must be in range(0, 256)")
    return v


# ---- strings of digits ------------------------------------------------------
class SymChar:
    """one hexadecimal digit"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(self.char())

    def char(self):
        return "%x" % int(self.n)


def mkchar(n):
    return "%x" % n if isinstance(n, int) else SymChar(n)


def mkstr(cs):
    cs = [c if isinstance(c, str) or isinstance(c.n, SymInt) else "%x" % c.n for c in cs]
    if all(isinstance(c, str) for c in cs):
        return "".join(cs)
    return SymStr(cs)


def chars(x):
    if isinstance(x, SymStr):
        return list(x.c)
    if isinstance(x, str):
        return list(x)
    return None


def char_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        if b not in "0123456789abcdef":
            return False
        return a.n == int(b, 16)
    return a.n == b.n


class SymStr:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = list(c)

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        return iter([mkstr([c]) for c in self.c])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkstr(self.c[k])
        return mkstr([self.c[k]])

    def __add__(self, o):
        e = chars(o)
        return NotImplemented if e is None else mkstr(self.c + e)

    def __radd__(self, o):
        e = chars(o)
        return NotImplemented if e is None else mkstr(e + self.c)

    def __mul__(self, k):
        return mkstr(self.c * int(k))
    __rmul__ = __mul__

    def __eq__(self, o):
        e = chars(o)
        if e is None or len(e) != len(self.c):
            return False
        r = True
        for x, y in zip(self.c, e):
            q = char_eq(x, y)
            if q is False:
                return False
            r = q if r is True else (r if q is True else r & q)
        return r

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        raise Give("hash of a symbolic string")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<str %d>" % len(self.c)

    def _idx(self, sub, order):
        for i in order:
            if self[i:i + len(sub)] == sub:
                return i
        return -1

    def find(self, sub, start=0):
        return self._idx(sub, range(start, len(self.c) - len(sub) + 1))

    def rfind(self, sub):
        return self._idx(sub, range(len(self.c) - len(sub), -1, -1))

    def index(self, sub, start=0):
        r = self.find(sub, start)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rstrip(self, cs):
        e = len(self.c)
        while e and any(char_eq(self.c[e - 1], x) for x in cs):
            e -= 1
        return self[:e]

    def lstrip(self, cs):
        e = 0
        while e < len(self.c) and any(char_eq(self.c[e], x) for x in cs):
            e += 1
        return self[e:]

    def ljust(self, n, ch=" "):
        return self + ch * max(0, n - len(self))

    def rjust(self, n, ch=" "):
        return ch * max(0, n - len(self)) + self

    def zfill(self, n):
        return self.rjust(n, "0")

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def startswith(self, s):
        return bool(self[:len(s)] == s)

    def endswith(self, s):
        return bool(self[len(self) - len(s):] == s)


def bits_str(x, n):
    """binary digits of a nonnegative symbolic x < 2^n, n digits"""
    v = at(x, n)
    return mkstr([mkchar(mk(sc.extract(v, i, 1), 1, 0, 1)) for i in range(n - 1, -1, -1)])


# ---- shadowed builtins --------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt, gf2.GFInt))


class SInt(metaclass=_IntMeta):
    def __new__(cls, x=0, base=None):
        if base is not None:
            if isinstance(x, SymStr):
                cs = x.c
                if not cs:
                    raise ValueError("invalid literal for int()")
                r = 0
                for c in cs:
                    d = c.n if isinstance(c, SymChar) else int(c, base)
                    if isinstance(d, SymInt) and d.hi >= base and (d >= base):
                        raise ValueError("invalid literal for int()")
                    r = r * base + d if base & (base - 1) else (r << (base.bit_length() - 1)) | d
                return r
            return int(x, base)
        if isinstance(x, (SymInt, gf2.GFInt)):
            return x
        if isinstance(x, SymBool):
            return x.asint()
        if isinstance(x, SymStr):
            return SInt(x, 10)
        return int(x)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        e = elems(b)
        if e is None:
            e = list(b)
        if byteorder == "big":
            e = e[::-1]
        if any(isinstance(x, gf2.GFInt) for x in e):
            return gf2.join(e)
        n = 8 * len(e)
        if not n:
            return 0
        v = sc.concat([(at(x, 8), 8) for x in e])
        if not isinstance(v, V):
            return sc.to_signed(v, n) if signed else v
        return mk(v, n, -(1 << (n - 1)) if signed else 0, (1 << (n - (1 if signed else 0))) - 1)

    to_bytes = staticmethod(lambda x, *a, **k: x.to_bytes(*a, **k))
    bit_length = staticmethod(lambda x: x.bit_length())


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytes, SymBytes))


class SBytes(metaclass=_BytesMeta):
    def __new__(cls, x=b"", *a):
        if isinstance(x, SymInt):
            x = x.conc()
        if isinstance(x, int) or isinstance(x, str):
            return bytes(x, *a)
        e = elems(x)
        return mkbytes([bytecheck(v) for v in (list(x) if e is None else e)])

    @staticmethod
    def fromhex(s):
        if isinstance(s, SymStr):
            if len(s.c) % 2:
                raise ValueError("non-hexadecimal number found in fromhex()")
            v = [c.n if isinstance(c, SymChar) else int(c, 16) for c in s.c]
            return mkbytes([(v[i] << 4) | v[i + 1] for i in range(0, len(v), 2)])
        return bytes.fromhex(s)

    @staticmethod
    def join(sep, it):
        return sjoin(sep, it)


class _BAMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytearray, SymByteArray))


class SByteArray(metaclass=_BAMeta):
    def __new__(cls, x=b""):
        if isinstance(x, SymInt):
            x = x.conc()
        return SymByteArray(x)


def sbin(x):
    if isinstance(x, (SymInt, SymBool)):
        x = lift(x)
        if isinstance(x, SymInt):
            if x.lo < 0 and (x < 0):
                return "-" + sbin(-x)
            # the number of digits depends on the value
            n = x.w
            while n > 1 and EX.fork(sc.eq(sc.extract(x.v, n - 1, 1) if x.w >= n else 0, 0, 1)):
                n -= 1
            return "0b" + bits_str(x, n)
    return bin(x)


def sformat(x, spec=""):
    x = lift(x)
    if not isinstance(x, SymInt):
        return format(x, spec)
    import re
    m = re.fullmatch(r"(#?)(0?)(\d*)([bxd]?)", spec)
    if not m or m.group(4) not in ("b", "x"):
        return "<sym>"
    alt, zero, n, kind = m.groups()
    n = int(n or 0)
    if x.lo < 0 and (x < 0):
        raise Give("format of a negative value")
    per = 1 if kind == "b" else 4
    pre = ("0" + kind) if alt else ""
    need = max(1, (x.w + per - 1) // per)
    digs = n - len(pre) if zero else 0
    while need > max(1, digs) and EX.fork(sc.eq(sc.extract(sc.zext(x.v, x.w, need * per) if need * per > x.w else x.v, (need - 1) * per, per), 0, per)):
        need -= 1
    d = max(need, digs)
    v = at(x, d * per)
    s = mkstr([mkchar(mk(sc.extract(v, i * per, per), per, 0, (1 << per) - 1)) for i in range(d - 1, -1, -1)])
    out = pre + s
    return out if len(out) >= n else " " * (n - len(out)) + out


def shex(x):
    return sformat(x, "#x") if isinstance(x, SymInt) else hex(x)


def sjoin(sep, it):
    it = list(it)
    if isinstance(sep, (str, SymStr)):
        if all(isinstance(x, str) for x in it):
            return sep.join(it)
        out = []
        for i, x in enumerate(it):
            if i:
                out += chars(sep)
            e = chars(x)
            if e is None:
                raise TypeError("sequence item %d: expected str instance" % i)
            out += e
        return mkstr(out)
    out = []
    for i, x in enumerate(it):
        if i:
            out += elems(sep)
        e = elems(x)
        if e is None:
            raise TypeError("sequence item %d: expected a bytes-like object" % i)
        out += e
    return mkbytes(out)


def schr(x):
    return chr(x)


def sstr(x=""):
    return x if isinstance(x, SymStr) else str(x)


def sisinstance(x, t):
    if isinstance(t, tuple):
        return any(sisinstance(x, y) for y in t)
    t = {int: SInt, bytes: SBytes, bytearray: SByteArray}.get(t, t)
    if t is str:
        return isinstance(x, (str, SymStr))
    if t is bool:
        return isinstance(x, (bool, SymBool))
    return isinstance(x, t)


def sround(x, n=None):
    return x if isinstance(x, SymInt) else round(x) if n is None else round(x, n)


def slist(x=()):
    e = elems(x)
    return list(x) if e is None else e


def smin(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    return _minmax(a, k, True)


def smax(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    return _minmax(a, k, False)


def _minmax(a, k, mn):
    if k or not any(isinstance(x, SymInt) for x in a):
        return (min if mn else max)(a, **k)
    r = a[0]
    for x in a[1:]:
        lr, lx = rng(r), rng(x)
        lo = (min if mn else max)(lr[0], lx[0])
        hi = (min if mn else max)(lr[1], lx[1])
        w = width(min(lr[0], lx[0]), max(lr[1], lx[1]))
        c = (x < r) if mn else (x > r)
        c = cond(c)
        r = mk(sc.ite(c, at(x, w), at(r, w), w), w, lo, hi) if min(lr[0], lx[0]) >= 0 or lo < 0 else (x if (x < r if mn else x > r) else r)
    return r


SHADOW = dict(int=SInt, bytes=SBytes, bytearray=SByteArray, bin=sbin, hex=shex, format=sformat, str=None, isinstance=sisinstance,
              round=sround, pow=lambda b, e, m=None: builtins_pow(b, e, m) if isinstance(b, SymInt) else (pow(b, e) if m is None else pow(b, e, m)),
              min=smin, max=smax, print=lambda *a, **k: None)
del SHADOW["str"]


class _T(ast.NodeTransformer):
    """'...'.join(x) on a literal: proxies cannot be joined by the real method"""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, (str, bytes)) and len(n.args) == 1:
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__vp_join__", ast.Load()), n), [f.value, n.args[0]], []), n)
        return n


class Loader:
    """loads modules of /repo/pythonref from source; stubs: {module name: module-like object}"""

    def __init__(self, stubs, root=None, sym=True):
        self.stubs, self.mods, self.root, self.sym = stubs, {}, root or PYREF, sym

    def path(self, name):
        p = os.path.join(self.root, *name.split("."))
        for q in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.exists(q):
                return q
        return None

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split(".")[0]
        if name in self.stubs or top in self.stubs:
            m = self.stubs.get(name) or self.stubs[top]
            if not fromlist and "." in name and name in self.stubs and top in self.stubs:
                return self.stubs[top]
            return m
        if self.path(name):
            m = self.load(name)
            if not fromlist and "." in name:
                return self.load(top)
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path(name)
        src = open(p).read()
        m = types.ModuleType(name)
        m.__file__ = p
        if p.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(p)]
        self.mods[name] = m
        b = dict(vars(builtins))
        b["__import__"] = self.imp
        m.__dict__["__builtins__"] = b
        m.__dict__["__vp_join__"] = sjoin
        for k, v in SHADOW.items():
            b[k] = v
        tree = ast.fix_missing_locations(_T().visit(ast.parse(src)))
        exec(compile(tree, p, "exec"), m.__dict__)
        return m


def vkey(x):
    """structural identity of a value"""
    if isinstance(x, int):
        return x
    if isinstance(x, gf2.GFInt):
        return tuple(x.b)
    if not isinstance(x.v, V):
        return x.v
    return tuple((t if t is None else t.get_id(), n, p) for t, n, p in x.v.segs)


class SymApi:
    sym = True

    def __init__(self, params, ex):
        self.p, self.ex = params, ex
        self._patches, self.loader = [], Loader({})

    from pyapi import Api as _A
    once, patch, unpatch, bytes, ints, attempt = _A.once, _A.patch, _A.unpatch, _A.bytes, _A.ints, _A.attempt
    del _A

    def int(self, lo, hi):
        return self.ex.new(lo, hi)

    def byte(self):
        return self.ex.new(0, 255)

    def pick(self, lo, hi):
        """a free choice of a size: one path per value"""
        ex = self.ex
        if ex.k < len(ex.dec):
            v = ex.dec[ex.k][1]
        else:
            v = lo
            for x in range(hi, lo, -1):
                ex.todo.append((ex.dec + [("c", x)], None))
            ex.dec.append(("c", lo))
        ex.k += 1
        ex.inputs.append(v)
        return v

    def stubs(self, d):
        self.loader.stubs.update(d)

    def load(self, name):
        return self.loader.load(name)

    def assume(self, c):
        self.ex.assume(cond(c))

    def check(self, c, msg):
        self.ex.check(cond(c), msg)

    def wit(self, msg, c=True):
        self.ex.wit(cond(c), msg)

    def mkbytes(self, l):
        return mkbytes(l)

    def frombytes(self, l, order="little"):
        return SInt.from_bytes(mkbytes(list(l)), order)

    def tobytes(self, v, n, order="little"):
        return elems(v.to_bytes(n, order))

    def prefer(self, f):
        self.ex.prefer = f

    def cond(self, c):
        return mkb(cond(c))

    def must(self, c):
        c = cond(c)
        return self.ex.must(c)

    def ite(self, c, x, y):
        c = cond(c)
        if isinstance(c, bool):
            return x if c else y
        a, b = rng(x), rng(y)
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        w = width(lo, hi)
        return mk(sc.ite(c, at(x, w), at(y, w), w), w, lo, hi)

    def alleq(self, x, y):
        x, y = list(x), list(y)
        r = len(x) == len(y) and sc.b_and(*[cond(p == q) for p, q in zip(x, y)])
        if r is True:
            t = [p.v.z() == q.v.z() for p, q in zip(x, y) if isinstance(p, SymInt) and isinstance(q, SymInt) and isinstance(p.v, V) and isinstance(q.v, V) and p.w == q.w]
            self.ex.folded = t or self.ex.folded
        return mkb(r)

    def andc(self, *cs):
        return mkb(sc.b_and(*[cond(c) for c in cs]))

    def orc(self, *cs):
        return mkb(sc.b_or(*[cond(c) for c in cs]))

    def notc(self, c):
        return mkb(sc.b_not(cond(c)))

    def gfint(self, nbits):
        """an unknown integer in the XOR domain"""
        if gf2.SP is None or self.ex.gfpath != self.ex.paths:
            gf2.reset()
            self.ex.gfpath = self.ex.paths
        self.ex.inputs.append(("gf", nbits))
        return gf2.fresh(nbits, len(self.ex.inputs) - 1)

    def gfbytes(self, n):
        return mkbytes([self.gfint(8) for _ in range(n)])

    def gfeq(self, x, y, msg):
        """the two sequences are the same functions of the unknown bits"""
        ex = self.ex
        x, y = list(x), list(y)
        ex.obligations += 1
        ex.checks[msg] = ex.checks.get(msg, 0) + 1
        n = max([len(gf2.bits_of(v)) for v in x + y] or [0])
        if len(x) == len(y) and all(gf2.bits_of(p, n) == gf2.bits_of(q, n) for p, q in zip(x, y)):
            ex.discharged += 1
            return
        import random
        r = random.Random(7)
        for k in range(6):
            vals = [(r.getrandbits(v[1]) if k != 1 else 0) if isinstance(v, tuple) else v if isinstance(v, int) else 0 for v in ex.inputs]
            if len(x) == len(y):
                e = gf2.SP.evaluator(vals)
                if all(e(p) == e(q) for u, v in zip(x, y) for p, q in zip(gf2.bits_of(u, n), gf2.bits_of(v, n))):
                    continue
            ex.failures.append((msg, vals))
            return
        raise Give(msg + ": normal forms differ but no differing input found")

    def hidden(self, n):
        """n unconstrained bytes that are not inputs of the harness"""
        k = self.ex.nhid
        self.ex.nhid += n
        return [SymInt(sc.var("h%d" % (k + i), 8), 8, 0, 255) for i in range(n)]

    def uf(self, name, data, nout, real):
        """an unknown function of bytes: identical arguments give the same result, nothing else is known"""
        d = elems(data)
        t = self.ex.uf.setdefault(name, {})
        k = tuple(vkey(x) for x in d)
        if k not in t:
            fp = None if any(isinstance(x, gf2.GFInt) for x in d) else self.ex.fingerprint([at(x, 8) for x in d])
            fm = self.ex.fpc[1]
            # the same bytes written in another way
            for o, e in list(t.values()):
                if len(e) == len(d) and not any(isinstance(x, gf2.GFInt) for x in d + e):
                    if fp is not None and o[2] is not None and o[3] == fm and o[2] != fp:
                        continue
                    cs, ko = [], o[1]
                    for i, (x, y) in enumerate(zip(d, e)):
                        if k[i] == ko[i]:
                            continue
                        c = cond(x == y)
                        if c is False or c is not True and not self.ex.likely(c):
                            break
                        cs.append(c)
                    else:
                        c = sc.b_and(*cs)
                        if c is not False and (c is True or self.ex.must(c)):
                            t[k] = (o, d)
                            break
            else:
                t[k] = ((self.hidden(nout), k, fp, fm), d)
        return mkbytes(t[k][0][0])
