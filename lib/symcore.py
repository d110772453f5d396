"""Symbolic values and path exploration shared by the engines.

A value is a Python int (concrete) or a V: a bit-vector held as a list of segments (constant bits, or a slice of a
z3 term), LSB first, so that shifts/masks/concatenations of packed data stay exact and small.  Conditions are Python
bools or z3 BoolRefs.  All decisions are taken by z3.
"""
import os, sys, time
import z3

z3.set_param("smt.random_seed", 1)
sys.setrecursionlimit(200000)


class Inconclusive(Exception):
    pass


class V:
    __slots__ = ("w", "segs", "_z")

    def __init__(self, w, segs):
        self.w, self.segs, self._z = w, segs, None

    def z(self):
        if self._z is None:
            self._z = _segs_z3(self.segs)
        return self._z

    def __repr__(self):
        return "V%d%s" % (self.w, [(None if t is None else str(t)[:20], n, p) for t, n, p in self.segs])


# A segment is (term, width, p): constant bits p when term is None, else bits [p, p+width) of term.

_ext_cache = {}


def _seg_z3(s):
    t, n, p = s
    if t is None:
        return z3.BitVecVal(p, n)
    if p == 0 and n == t.size():
        return t
    k = (t.get_id(), p, n)
    r = _ext_cache.get(k)
    if r is None:
        e = z3.Extract(p + n - 1, p, t)
        _ext_cache[k] = (e, t)
        return e
    return r[0]


def _segs_z3(segs):
    if len(segs) == 1:
        return _seg_z3(segs[0])
    return z3.Concat(*[_seg_z3(s) for s in reversed(segs)])


def _mk(segs):
    """Normalise a list of segments (LSB first); int when constant."""
    out = []
    for s in segs:
        t, n, p = s
        if n == 0:
            continue
        if out:
            t0, n0, p0 = out[-1]
            if t is None:
                if t0 is None:
                    out[-1] = (None, n0 + n, p0 | (p << n0))
                    continue
            elif t0 is not None and p == p0 + n0 and t.get_id() == t0.get_id():
                out[-1] = (t0, n0 + n, p0)
                continue
        out.append(s)
    if not out:
        return 0
    if len(out) == 1 and out[0][0] is None:
        return out[0][2]
    return V(sum(s[1] for s in out), tuple(out))


def var(name, w):
    return V(w, ((z3.BitVec(name, w), w, 0),))


def from_z3(t):
    if z3.is_bv_value(t):
        return t.as_long()
    return V(t.size(), ((t, t.size(), 0),))


def segs(a, w):
    if isinstance(a, V):
        if a.w != w:
            raise AssertionError("width %d != %d" % (a.w, w))
        return a.segs
    return ((None, w, a & ((1 << w) - 1)),)


def tz(a, w):
    """z3 term of a value."""
    if isinstance(a, V):
        return a.z()
    return z3.BitVecVal(a, w)


def extract(a, lo, n):
    """bits [lo, lo+n)"""
    if not isinstance(a, V):
        return (a >> lo) & ((1 << n) - 1)
    if lo == 0 and n == a.w:
        return a
    out, pos, hi = [], 0, lo + n
    for t, k, p in a.segs:
        s, e = max(pos, lo), min(pos + k, hi)
        if s < e:
            if t is None:
                out.append((None, e - s, (p >> (s - pos)) & ((1 << (e - s)) - 1)))
            else:
                out.append((t, e - s, p + s - pos))
        pos += k
        if pos >= hi:
            break
    return _mk(out)


def concat(parts):
    """parts: [(value, width)] LSB first."""
    out = []
    for v, w in parts:
        out.extend(segs(v, w))
    return _mk(out)


def zext(a, w, w2):
    if not isinstance(a, V):
        return a & ((1 << w) - 1)
    return a if w == w2 else _mk(list(segs(a, w)) + [(None, w2 - w, 0)])


def trunc(a, w, w2):
    return extract(a, 0, w2)


_negs = {}      # id of a term SignExt(-(zext b)) -> (term, b, k): the term is minus the k-bit value b


def _neg_term(b, k, w):
    t = z3.SignExt(w - k - 1, -z3.ZeroExt(1, tz(b, k))) if w > k + 1 else -z3.ZeroExt(1, tz(b, k))
    _negs[t.get_id()] = (t, b, k)
    return V(w, ((t, w, 0),))


def sext(a, w, w2):
    if not isinstance(a, V):
        a &= (1 << w) - 1
        return (a | (((1 << w2) - 1) ^ ((1 << w) - 1))) if a >> (w - 1) else a
    if w == w2:
        return a
    s = a.segs[-1]
    if len(a.segs) == 1 and s[2] == 0 and s[0] is not None:
        g = _negs.get(s[0].get_id())
        if g is not None and w > g[2]:
            return _neg_term(g[1], g[2], w2)
    if s[0] is None:
        top = s[2] >> (s[1] - 1)
        return _mk(list(a.segs) + [(None, w2 - w, ((1 << (w2 - w)) - 1) if top else 0)])
    t = z3.SignExt(w2 - w, _seg_z3(s))
    return _mk(list(a.segs[:-1]) + [(t, t.size(), 0)])


def sig(a, w):
    """number of significant low bits (rest known zero)"""
    if not isinstance(a, V):
        return (a & ((1 << w) - 1)).bit_length()
    s = a.segs[-1]
    if s[0] is None:
        return w - s[1] + s[2].bit_length()
    return w


def low_zero(a, w):
    """number of known-zero low bits"""
    if not isinstance(a, V):
        return w if a == 0 else (a & -a).bit_length() - 1
    s = a.segs[0]
    if s[0] is None:
        return s[1] if s[2] == 0 else (s[2] & -s[2]).bit_length() - 1
    return 0


def _pieces(a, b, w):
    """common refinement of the segments of a and b"""
    sa, sb = segs(a, w), segs(b, w)
    i = j = 0
    ra, rb = sa[0], sb[0]
    while True:
        n = min(ra[1], rb[1])
        ta, tb = ra[0], rb[0]
        pa = (ta, n, ra[2] & ((1 << n) - 1)) if ta is None else (ta, n, ra[2])
        pb = (tb, n, rb[2] & ((1 << n) - 1)) if tb is None else (tb, n, rb[2])
        yield pa, pb, n
        if ra[1] == n:
            i += 1
            ra = sa[i] if i < len(sa) else None
        else:
            ra = (ta, ra[1] - n, ra[2] >> n) if ta is None else (ta, ra[1] - n, ra[2] + n)
        if rb[1] == n:
            j += 1
            rb = sb[j] if j < len(sb) else None
        else:
            rb = (tb, rb[1] - n, rb[2] >> n) if tb is None else (tb, rb[1] - n, rb[2] + n)
        if ra is None or rb is None:
            return


def _same(pa, pb):
    return pa[0] is not None and pb[0] is not None and pa[2] == pb[2] and pa[0].get_id() == pb[0].get_id()


def same_segs(a, b):
    return len(a.segs) == len(b.segs) and all(p[1] == q[1] and p[2] == q[2] and (p[0] is None) == (q[0] is None) and (p[0] is None or p[0].get_id() == q[0].get_id())
                                              for p, q in zip(a.segs, b.segs))


def _runs(c, n):
    """runs of equal bits of an n-bit constant: (bit, length) LSB first"""
    out = []
    while n > 0:
        b = c & 1
        k = ((c ^ (c + 1)).bit_length() - 1) if b else ((c & -c).bit_length() - 1 if c else n)
        k = min(k, n)
        out.append((b, k))
        c >>= k
        n -= k
    return out


def _sub(s, off, n):
    t, k, p = s
    return (None, n, (p >> off) & ((1 << n) - 1)) if t is None else (t, n, p + off)


def _bitwise(op, a, b, w):
    out = []
    for pa, pb, n in _pieces(a, b, w):
        if pa[0] is None and pb[0] is None:
            x, y = pa[2], pb[2]
            out.append((None, n, x & y if op == 0 else x | y if op == 1 else x ^ y))
            continue
        if pa[0] is None:
            pa, pb = pb, pa
        if pb[0] is None:
            off = 0
            for bit, k in _runs(pb[2], n):
                s = _sub(pa, off, k)
                if op == 0:
                    out.append(s if bit else (None, k, 0))
                elif op == 1:
                    out.append((None, k, (1 << k) - 1) if bit else s)
                else:
                    if bit:
                        t = ~_seg_z3(s)
                        out.append((t, k, 0))
                    else:
                        out.append(s)
                off += k
            continue
        if _same(pa, pb):
            out.append(pa if op < 2 else (None, n, 0))
            continue
        x, y = _seg_z3(pa), _seg_z3(pb)
        t = x & y if op == 0 else x | y if op == 1 else x ^ y
        out.append((t, n, 0))
    return _mk(out)


def and_(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return a & b
    return _bitwise(0, a, b, w)


def or_(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return a | b
    return _bitwise(1, a, b, w)


def xor_(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return a ^ b
    return _bitwise(2, a, b, w)


def not_(a, w):
    return xor_(a, (1 << w) - 1, w)


def shl(a, k, w):
    """constant shift"""
    if k >= w:
        return 0
    if not isinstance(a, V):
        return (a << k) & ((1 << w) - 1)
    if k == 0:
        return a
    return _mk([(None, k, 0)] + list(segs(extract(a, 0, w - k), w - k)))


def lshr(a, k, w):
    if k >= w:
        return 0
    if not isinstance(a, V):
        return (a & ((1 << w) - 1)) >> k
    if k == 0:
        return a
    return _mk(list(segs(extract(a, k, w - k), w - k)) + [(None, k, 0)])


def ashr(a, k, w):
    k = min(k, w - 1)
    if not isinstance(a, V):
        return (to_signed(a, w) >> k) & ((1 << w) - 1)
    return sext(extract(a, k, w - k), w - k, w)


def to_signed(a, w):
    a &= (1 << w) - 1
    return a - (1 << w) if a >> (w - 1) else a


def shift_sym(kind, a, b, w):
    """shift by a value (LLVM/C style: amount < w)"""
    if not isinstance(b, V):
        return (shl if kind == "shl" else lshr if kind == "lshr" else ashr)(a, b, w)
    x, y = tz(a, w), tz(b, w)
    t = x << y if kind == "shl" else z3.LShR(x, y) if kind == "lshr" else x >> y
    return from_z3(t)


def add(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return (a + b) & ((1 << w) - 1)
    if not isinstance(a, V):
        a, b = b, a
    if not isinstance(b, V) and b & ((1 << w) - 1) == 0:
        return a
    # disjoint operands: or
    k, overlap = 0, False
    for pa, pb, n in _pieces(a, b, w):
        za, zb = pa[0] is None and pa[2] == 0, pb[0] is None and pb[2] == 0
        if not (za or zb):
            if pa[0] is None or pb[0] is None:
                c = pa[2] if pa[0] is None else pb[2]
                k += (c & -c).bit_length() - 1
            overlap = True
            break
        k += n
    if not overlap:
        return or_(a, b, w)
    m = min(w, max(sig(a, w), sig(b, w)) + 1)
    lo = or_(extract(a, 0, k), extract(b, 0, k), k) if k else 0
    hi = tz(extract(a, k, m - k), m - k) + tz(extract(b, k, m - k), m - k)
    return concat([(lo, k), (from_z3(hi), m - k), (0, w - m)])


def neg(a, w):
    return sub(0, a, w)


def sub(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return (a - b) & ((1 << w) - 1)
    if not isinstance(b, V):
        if b & ((1 << w) - 1) == 0:
            return a
        k = low_zero(b, w)
        if k:
            lo = extract(a, 0, k)
            hi = tz(extract(a, k, w - k), w - k) - z3.BitVecVal(b >> k, w - k)
            return concat([(lo, k), (from_z3(hi), w - k)])
    if isinstance(a, V) and isinstance(b, V) and same_segs(a, b):
        return 0
    if not isinstance(a, V) and a == 0:
        s = b.segs[0]
        if len(b.segs) == 1 and s[2] == 0 and s[0] is not None:
            g = _negs.get(s[0].get_id())
            if g is not None and w > g[2]:
                return zext(g[1], g[2], w)
        k = sig(b, w)
        if 1 < k and k + 1 < w:
            return _neg_term(extract(b, 0, k), k, w)
    if isinstance(b, V):
        k = low_zero(b, w)
        if k and k < w:
            lo = extract(a, 0, k)
            hi = tz(extract(a, k, w - k), w - k) - tz(extract(b, k, w - k), w - k)
            return concat([(lo, k), (from_z3(hi), w - k)])
        # 0 - bit : mask
        if not isinstance(a, V) and a == 0 and sig(b, w) == 1:
            t = z3.SignExt(w - 1, tz(extract(b, 0, 1), 1))
            return V(w, ((t, w, 0),))
    return from_z3(tz(a, w) - tz(b, w))


def mul(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return (a * b) & ((1 << w) - 1)
    if not isinstance(a, V):
        a, b = b, a
    if not isinstance(b, V):
        b &= (1 << w) - 1
        if b == 0:
            return 0
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, w)
    m = min(w, sig(a, w) + sig(b, w))
    t = tz(extract(a, 0, m), m) * tz(extract(b, 0, m), m)
    return concat([(from_z3(t), m), (0, w - m)])


def udiv(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return a // b
    if not isinstance(b, V) and b & (b - 1) == 0:
        return lshr(a, b.bit_length() - 1, w)
    m = max(sig(a, w), sig(b, w), 1)
    t = z3.UDiv(tz(extract(a, 0, m), m), tz(extract(b, 0, m), m))
    return concat([(from_z3(t), m), (0, w - m)])


def urem(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return a % b
    if not isinstance(b, V) and b & (b - 1) == 0:
        return and_(a, b - 1, w)
    m = max(sig(a, w), sig(b, w), 1)
    n = min(m, sig(b, w))
    t = z3.URem(tz(extract(a, 0, m), m), tz(extract(b, 0, m), m))
    if n < m:
        t = z3.Extract(n - 1, 0, t)
    return concat([(from_z3(t), n), (0, w - n)])


def sdiv(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        x, y = to_signed(a, w), to_signed(b, w)
        r = abs(x) // abs(y)
        return (r if (x < 0) == (y < 0) else -r) & ((1 << w) - 1)
    return from_z3(tz(a, w) / tz(b, w))


def srem(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        x, y = to_signed(a, w), to_signed(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & ((1 << w) - 1)
    return from_z3(z3.SRem(tz(a, w), tz(b, w)))


# ---- booleans ---------------------------------------------------------------
_bit_of = {}


def bit(c):
    """1-bit value of a condition"""
    if isinstance(c, bool):
        return int(c)
    t = z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    _bit_of[t.get_id()] = (t, c)
    return V(1, ((t, 1, 0),))


def cond1(a):
    """condition of a 1-bit value"""
    if isinstance(a, V):
        t, n, p = a.segs[0]
        r = _bit_of.get(t.get_id())
        if r is not None and t.size() == 1:
            return r[1]
        return _seg_z3(a.segs[0]) == z3.BitVecVal(1, 1)
    return bool(a & 1)


def b_not(c):
    return (not c) if isinstance(c, bool) else (c.arg(0) if z3.is_not(c) else z3.Not(c))


def b_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)


def b_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    return False if not out else out[0] if len(out) == 1 else z3.Or(*out)


def b_xor(a, b):
    if isinstance(a, bool):
        return b_not(b) if a else b
    if isinstance(b, bool):
        return b_not(a) if b else a
    return z3.Xor(a, b)


def eq(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return (a ^ b) & ((1 << w) - 1) == 0
    conds = []
    for pa, pb, n in _pieces(a, b, w):
        if pa[0] is None and pb[0] is None:
            if pa[2] != pb[2]:
                return False
        elif _same(pa, pb):
            pass
        else:
            if pa[0] is None:
                pa, pb = pb, pa
            if n == 1 and pb[0] is None:
                c = cond1(_mk([pa]))
                conds.append(c if pb[2] else b_not(c))
            else:
                conds.append(_seg_z3(pa) == _seg_z3(pb))
    return b_and(*conds)


def ult(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        m = (1 << w) - 1
        return (a & m) < (b & m)
    m = max(sig(a, w), sig(b, w), 1)
    if m < w:
        a, b = extract(a, 0, m), extract(b, 0, m)
    if not isinstance(b, V):
        if b == 0:
            return False
        if b & (b - 1) == 0:        # a < 2^k: the high bits are zero
            k = b.bit_length() - 1
            return eq(extract(a, k, m - k), 0, m - k)
    if isinstance(a, V) and isinstance(b, V) and same_segs(a, b):
        return False
    return z3.ULT(tz(a, m), tz(b, m))


def ule(a, b, w):
    return b_not(ult(b, a, w))


def slt(a, b, w):
    if not isinstance(a, V) and not isinstance(b, V):
        return to_signed(a, w) < to_signed(b, w)
    ta = cond1(extract(a, w - 1, 1))
    tb = cond1(extract(b, w - 1, 1))
    if isinstance(ta, bool) and isinstance(tb, bool):
        if ta == tb:
            return ult(a, b, w)
        return ta
    if not isinstance(b, V) and b == 0:
        return ta
    return tz(a, w) < tz(b, w)


def sle(a, b, w):
    return b_not(slt(b, a, w))


def ite(c, a, b, w):
    if isinstance(c, bool):
        return a if c else b
    if not isinstance(a, V) and not isinstance(b, V) and a == b:
        return a
    out = []
    for pa, pb, n in _pieces(a, b, w):
        if (pa[0] is None and pb[0] is None and pa[2] == pb[2]) or _same(pa, pb):
            out.append(pa)
        elif n == 1:
            x, y = cond1(_mk([pa])), cond1(_mk([pb]))
            if isinstance(x, bool):
                r = b_or(c, y) if x else b_and(b_not(c), y)
            elif isinstance(y, bool):
                r = b_or(b_not(c), x) if y else b_and(c, x)
            else:
                r = None
            if r is None:
                out.append((z3.If(c, _seg_z3(pa), _seg_z3(pb)), n, 0))
            else:
                out.extend(segs(bit(r), 1))
        else:
            out.append((z3.If(c, _seg_z3(pa), _seg_z3(pb)), n, 0))
    return _mk(out)


# ---- solver ------------------------------------------------------------------
_ctx = z3.main_ctx().ref()
_vars_memo = {}
_vars_roots = []
_const_of = {}
_EMPTY = frozenset()


def vars_of(t):
    """ids of the uninterpreted constants of a term"""
    k = z3.Z3_get_ast_id(_ctx, t.as_ast())
    r = _vars_memo.get(k)
    if r is not None:
        return r
    _vars_roots.append(t)
    memo = _vars_memo
    todo = [t.as_ast()]
    gid, na, ga, kind = z3.Z3_get_ast_id, z3.Z3_get_app_num_args, z3.Z3_get_app_arg, z3.Z3_get_ast_kind
    while todo:
        x = todo[-1]
        xi = gid(_ctx, x)
        if xi in memo:
            todo.pop()
            continue
        if kind(_ctx, x) != z3.Z3_APP_AST:
            memo[xi] = _EMPTY
            todo.pop()
            continue
        n = na(_ctx, x)
        if n == 0:
            d = z3.Z3_get_app_decl(_ctx, x)
            if z3.Z3_get_decl_kind(_ctx, d) == z3.Z3_OP_UNINTERPRETED:
                memo[xi] = frozenset((xi,))
                if xi not in _const_of:
                    _const_of[xi] = z3.z3._to_expr_ref(x, t.ctx)
            else:
                memo[xi] = _EMPTY
            todo.pop()
            continue
        miss = []
        acc = _EMPTY
        for i in range(n):
            c = ga(_ctx, x, i)
            r = memo.get(gid(_ctx, c))
            if r is None:
                miss.append(c)
            elif not miss and r is not acc:
                acc = (acc | r) if not (r <= acc) else acc
        if miss:
            todo.extend(miss)
        else:
            memo[xi] = acc
            todo.pop()
    return memo[k]


class Mod:
    """an assignment: constant id -> z3 value; unassigned constants are 0"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def eval(self, t, model_completion=True):
        vs = vars_of(t)
        if not vs:
            return z3.simplify(t)
        d = self.d
        sub = []
        for v in vs:
            c = _const_of[v]
            x = d.get(v)
            if x is None:
                x = z3.BoolVal(False) if z3.is_bool(c) else z3.BitVecVal(0, c.size())
            sub.append((c, x))
        return z3.simplify(z3.substitute(t, *sub))


SLOW = bool(os.environ.get("VP_SLOW"))


class PathSolver:
    """Solver for path conditions (lists of z3 conditions, each known satisfiable before the last query).  A query is
    sliced to the conditions that share constants with it (transitively); the rest keeps its earlier model."""

    dom = None        # constant id -> a condition that always holds of it

    def __init__(self, timeout_ms=120000):
        self.timeout = timeout_ms
        self.stack = []
        self.index = {}
        self.hint = {}
        self.small = z3.SimpleSolver()
        self.small.set("timeout", 1500)
        self.queries = 0
        self.time = 0.0

    def guess(self, pcs, conds, seen):
        """a satisfying assignment among a few simple ones (ranges from self.hint), or None"""
        import random
        rnd = random.Random(1)
        vs = [v for v in seen if not z3.is_bool(_const_of[v])]
        if len(vs) > 600 or len(vs) < len(seen):
            return None
        rg = [self.hint.get(v) or (0, (1 << _const_of[v].size()) - 1) for v in vs]
        for k in range(14):
            d = {}
            for j, (v, (lo, hi)) in enumerate(zip(vs, rg)):
                if k == 0:
                    x = min(max(0, lo), hi)
                elif k == 1:
                    x = lo
                elif k == 2:
                    x = hi
                elif k == 3:
                    x = min(max(1, lo), hi)
                elif k < 7:
                    b = [9, 60, 300][k - 4]
                    x = min(max(rnd.randint(-b, b), lo), hi)
                elif k < 10:
                    x = rnd.randint(lo, hi)
                else:
                    x = rnd.choice([lo, hi, min(max(0, lo), hi), (lo + hi) // 2, rnd.randint(lo, hi)])
                w = _const_of[v].size()
                d[v] = z3.BitVecVal(x & ((1 << w) - 1), w)
            m = Mod(d)
            if all(z3.is_true(m.eval(c)) for c in conds) and all(z3.is_true(m.eval(c)) for c in pcs):
                return d
        return None

    def sync(self, pc):
        st = self.stack
        k = 0
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]:
            k += 1
        for i in range(len(st) - 1, k - 1, -1):
            for v in vars_of(st[i]):
                self.index[v].pop()
        del st[k:]
        for i in range(k, len(pc)):
            for v in vars_of(pc[i]):
                self.index.setdefault(v, []).append(i)
            st.append(pc[i])

    def check(self, pc, *conds, base=None, quick=0):
        """sat? of pc and conds; returns a Mod or None.  base: a Mod of pc (then only the slice is solved)."""
        self.sync(pc)
        if base is None:
            rel = range(len(pc))
            seen = set()
            for c in pc:
                seen |= vars_of(c)
            for c in conds:
                seen |= vars_of(c)
        else:
            seen = set()
            todo = []
            for c in conds:
                for v in vars_of(c):
                    if v not in seen:
                        seen.add(v)
                        todo.append(v)
            rel = set()
            while todo:
                for i in self.index.get(todo.pop(), ()):
                    if i not in rel:
                        rel.add(i)
                        for v in vars_of(pc[i]):
                            if v not in seen:
                                seen.add(v)
                                todo.append(v)
            rel = sorted(rel)
        t = time.time()
        self.queries += 1
        r = z3.unknown
        s = self.small
        popped = False
        extra = [self.dom[v] for v in seen if v in self.dom] if self.dom else ()
        if len(rel) <= 64:
            s.push()
            for i in rel:
                s.add(pc[i])
            s.add(*conds)
            s.add(*extra)
            if self.hint:
                s.set("timeout", 150)
                r = s.check()
                if r == z3.unknown:
                    g = self.guess([pc[i] for i in rel] + list(extra), conds, seen)
                    if g:
                        s.pop()
                        s.set("timeout", 1500)
                        self.time += time.time() - t
                        d = dict(base.d) if base is not None else {}
                        d.update(g)
                        return Mod(d)
                s.set("timeout", 1500)
            if r == z3.unknown:
                r = s.check()
            if r != z3.sat:
                s.pop()
                popped = True
        if r == z3.unknown:
            popped = True
            s = z3.SolverFor("QF_BV")
            s.set("timeout", quick or self.timeout)
            for i in rel:
                s.add(pc[i])
            s.add(*conds)
            s.add(*extra)
            r = s.check()
        self.time += time.time() - t
        if SLOW and time.time() - t > 1:
            print("SLOW %.1f %s rel %d seen %d %s" % (time.time() - t, r, len(rel), len(seen), str(conds)[:600]), flush=True)
        if r == z3.unknown:
            raise Inconclusive("solver: unknown (%s)" % s.reason_unknown())
        if r != z3.sat:
            return None
        m = s.model()
        d = dict(base.d) if base is not None else {}
        for v in seen:
            d[v] = m.eval(_const_of[v], model_completion=True)
        if not popped:
            s.pop()
        return Mod(d)


def disjuncts(c):
    """split a condition into disjuncts"""
    out, todo = [], [(c, True)]
    while todo:
        x, pos = todo.pop()
        if isinstance(x, bool):
            if x == pos:
                return [True]
            continue
        if z3.is_not(x):
            todo.append((x.arg(0), not pos))
        elif (z3.is_or(x) and pos) or (z3.is_and(x) and not pos):
            todo.extend((k, pos) for k in x.children())
        else:
            out.append(x if pos else z3.Not(x))
    return out


def model_val(m, a, w):
    if not isinstance(a, V):
        return a
    return m.eval(a.z(), model_completion=True).as_long()
