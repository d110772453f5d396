"""Specification of the ring operations of vrfy.c over the algebraic domain (what vp_alg of harness/c/vrfy_alg.c checks)."""
import random
import z3
import symcore as sc
from symcore import V
from alg import Alg, padd, pscale
from llsym import P, _Kill

Q = 12289


def roots(n, q=Q):
    g = pow(11, (q - 1) // (2 * n), q)
    assert pow(g, n, q) == q - 1
    return [pow(g, 2 * u + 1, q) for u in range(n)]


class Ring:
    def __init__(self, prog, n, signed=(), rand_small=50):
        self.n, self.prog = n, prog
        self.alg = prog.alg = Alg(prog, Q)
        self.alg.signed_inputs = frozenset(signed)
        self.alg.rand_small = rand_small
        self.rho = roots(n)
        self.order = None
        self.cache, self.mono, self.held = {}, {}, []
        self.idx, self.nidx = {}, 0

    def arr(self, st, p, w):
        k = w // 8
        return [st.load(P(p.o, p.off + k * i), k, w) for i in range(self.n)]

    def inp(self, base):
        """polynomials of the inputs base..base+n-1"""
        return [{((("x", base + j), 1),): 1} for j in range(self.n)]

    def ev(self, f, r):
        out, x = {}, 1
        for c in f:
            if len(c) == 1:
                (m, k), = c.items()
                out[m] = (out.get(m, 0) + k * x) % Q
            else:
                out = padd(out, c, Q, x)
            x = x * r % Q
        return {m: c for m, c in out.items() if c}

    def power(self, p, e):
        if not p:
            return {}
        c, m = self.alg.atomise(p)
        return {tuple((a, k * e) for a, k in m): pow(c, e, Q)}

    def inv(self, p):
        return self.power(p, Q - 2)

    def coeffs(self, vals):
        """the polynomial with the given values at the roots (each value a polynomial over the atoms): list of coefficients"""
        n = self.n
        ni = pow(n, -1, Q)
        out = [dict() for _ in range(n)]
        for r, v in zip(self.rho, vals):
            ri = pow(r, -1, Q)
            x = ni
            items = list(v.items())
            for k in range(n):
                o = out[k]
                for m, c in items:
                    o[m] = (o.get(m, 0) + c * x) % Q
                x = x * ri % Q
        return [{m: c for m, c in o.items() if c} for o in out]

    # reports
    def bad(self, st, msg, seeds=3):
        """a polynomial identity fails: almost every input shows it"""
        pr = self.prog
        pr.obligations += 1
        pr.checks.setdefault(msg, [0, 0])[0] += 1
        for s in range(seeds):
            vals = self.alg.random_inputs(st, s)
            pr.failures.append((msg, vals))

    def good(self, msg):
        pr = self.prog
        pr.obligations += 1
        pr.discharged += 1
        pr.checks.setdefault(msg, [0, 0])[0] += 1

    def same(self, st, got, want, msg):
        """got: values (w=16 residues < q); want: polynomials"""
        for g, w in zip(got, want):
            p = self.alg.lift(st, g, 16)
            if p != w:
                self.bad(st, msg)
                return False
        self.good(msg)
        return True

    def zero_consts(self, forms):
        """for each form a constant that is zero exactly when the form is"""
        idx = self.idx
        if len(self.alg.memo) != self.nidx:
            for k, r in list(self.alg.memo.items())[self.nidx:]:
                p = self.alg.byid[r.get_id()]
                m = self.alg.atomise(p)[1] if p and not (len(p) == 1 and () in p) else None
                if m is not None:
                    idx.setdefault(m, r)
            self.nidx = len(self.alg.memo)
        out = []
        for f in forms:
            m = self.mono.get(id(f))
            if m is None:
                m = self.mono[id(f)] = self.alg.atomise(f)[1]
                self.held.append(f)
            r = idx.get(m)
            if r is None:
                r = self.alg.lower(f, 16).segs[0][0]
            out.append(r)
        return out


def setup_for(op, logn):
    n = 1 << logn

    def setup(prog):
        sg = {1: range(n), 4: range(2 * n), 5: range(2 * n), 6: range(n), 7: range(n), 9: range(n)}.get(op, ())
        R = Ring(prog, n, sg)
        A = R.alg
        x0, x1, x2, x3 = (R.inp(k * n) for k in range(4))
        rho = R.rho

        def ringvals(ident):
            den = [R.ev(x0, r) for r in rho]
            if ident == 20:
                num = [R.ev(x1, r) for r in rho]
            elif ident == 30:
                num = [A.mul(R.ev(x1, r), R.ev(x2, r)) for r in rho]
            else:
                num = [R.ev([padd(c, s, Q, -1) for c, s in zip(x2, x1)], r) for r in rho]
            return den, num, [A.mul(a, R.inv(b)) for a, b in zip(num, den)]

        if op == 3:
            def candidates(m, st):
                """f, g constants and F a monomial such that one coefficient of G = gF/f takes a value of the model"""
                vals, out = [], []
                for k, w in enumerate(R.cache.get(31, ())):
                    c = w.segs[0][0] if w.__class__ is V else None
                    x = m.d.get(c.get_id()) if c is not None else None
                    if x is not None and x.as_long() not in [a for a, b in vals]:
                        vals.append((x.as_long(), k))
                small = {}
                for g in range(1, 128):
                    for F in range(1, 128):
                        small.setdefault(g * F % Q, (g, F))
                        small.setdefault(-g * F % Q, (g, -F))
                for v, k in vals[:12]:
                    for f in range(1, 128):
                        if v * f % Q in small:
                            g, F = small[v * f % Q]
                            o = [0] * (3 * n)
                            o[0], o[n], o[2 * n + k] = f, g, F & 0xff
                            out.append(o)
                            break
                return out
            A.candidates = candidates

        def last_decides(st, conds):
            """the newest branch condition alone contradicts one of conds"""
            if not st.pc:
                return False
            vs = sc.vars_of(st.pc[-1])
            for c in conds:
                if sc.vars_of(c) & vs and prog.solver.check(st.pc[-1:], c) is None:
                    return True
            return False

        def cb(st, args):
            ident, p, v = args
            if ident == 10:
                return
            if ident == 11:
                vals = [A.mul(R.ev(x0, r), R.ev(x1, r)) for r in rho]
                want = R.coeffs(vals)
                want = [padd(w, c, Q, -1) for w, c in zip(want, x2)]
                got = R.arr(st, p, 16)
                m1 = "first half of the vector is the hashed message minus s2*h"
                m2 = "first half of the vector is reduced to the centred range"
                ps = [A.signed_poly(st, g, 16) for g in got]
                if ps != want and ps != [pscale(w, -1, Q) for w in want]:
                    R.bad(st, m1)
                    return
                R.good(m1)
                for g in got:
                    prog.report(st, sc.b_or(sc.b_and(sc.slt(Q // 2, g, 16), True), sc.slt(g, (-(Q // 2)) & 0xffff, 16)), m2)
                return
            if ident == 12:
                m = "second half of the vector is s2"
                prog.report(st, sc.b_or(*[sc.b_not(sc.eq(g, st.inputs[i][0], 16)) for i, g in enumerate(R.arr(st, p, 16))]), m)
                return
            if ident in (20, 30, 40, 50):
                m = "result satisfies its defining equation in the ring"
                mz = "refused exactly when the divisor is not invertible (or the vector is not short)"
                ca = R.cache.get(ident)
                if ca is None:
                    ca = R.cache[ident] = ringvals(ident)
                den, num, vals = ca
                if ident == 30:
                    mz = "refused exactly when f is not invertible or G does not fit"
                zs = R.cache.get(("zs", ident, len(A.memo)))
                if zs is None:
                    zs = R.cache[("zs", ident, len(A.memo))] = [c == 0 for c in R.zero_consts(den)]
                if ident in (20, 30):
                    assert v.__class__ is int
                    acc = bool(v)
                if ident == 20:
                    if not acc and last_decides(st, [z3.Not(c) for c in zs]):
                        R.good(mz)
                        return
                    prog.report(st, z3.Or(*zs) if acc else z3.Not(z3.Or(*zs)), mz)
                    if acc:
                        R.same(st, R.arr(st, p, 16), R.coeffs(vals), m)
                elif ident == 30:
                    if not acc and last_decides(st, [z3.Not(c) for c in zs]):
                        R.good(mz)        # a path on which the divisor vanishes
                        return
                    if 31 not in R.cache:
                        R.cache[31] = [A.lower(w, 32) for w in R.coeffs(vals)]
                    want = R.cache[31]
                    if 32 in R.cache:
                        fits = R.cache[32]
                    else:
                        fits = R.cache[32] = [sc.b_or(sc.ule(w, 127, 32), sc.ule(Q - 127, w, 32)) for w in want]
                    if not acc and last_decides(st, fits):
                        R.good(mz)
                        return
                    if not acc:
                        prog.report(st, z3.Not(z3.Or(*([z3.Not(f) for f in fits] + zs))), mz)
                        return
                    prog.report(st, z3.Or(*zs), mz)
                    prog.report(st, sc.b_not(sc.b_and(*fits)), mz)
                    got = R.arr(st, p, 8)
                    for g, w in zip(got, want):
                        g32 = sc.sext(g, 8, 32)
                        prog.report(st, sc.b_not(sc.b_or(sc.eq(g32, w, 32), sc.eq(sc.add(g32, Q, 32), w, 32))), m)
                else:
                    shc = st.inputs[-1][0]
                    ok = z3.And(z3.Not(z3.Or(*zs)), z3.Extract(0, 0, shc.z()) == 1)
                    prog.report(st, sc.b_not(sc.b_not(sc.b_xor(sc.b_not(sc.eq(v, 0, 32)), ok))), mz)
                    if ident == 40:
                        R.same(st, R.arr(st, p, 16), R.coeffs(vals), m)
                    else:
                        if R.order is None:
                            return
                        R.same(st, R.arr(st, p, 16), [vals[k] for k in R.order], m)
                return
            if ident in (51, 80, 81):
                m = "transform is the evaluation at the roots of x^n+1"
                src = x3 if ident == 51 else x0
                sc_ = pow(2, 16, Q) if ident == 81 else 1
                idx = {frozenset(pscale(R.ev(src, r), sc_, Q).items()): k for k, r in enumerate(rho)}
                got = [A.lift(st, g, 16) for g in R.arr(st, p, 16)]
                order = [idx.get(frozenset(g.items())) if g else None for g in got]
                if sorted(-1 if o is None else o for o in order) != list(range(n)):
                    R.bad(st, m)
                    return
                if R.order is not None and R.order != order and ident == 81:
                    R.bad(st, m)
                R.order = order
                R.good(m)
                return
            if ident in (60, 90):
                m = "zero count of the transform"
                zs = R.zero_consts([R.ev(x0, r) for r in rho])
                if ident == 60:
                    # sum in the order the transform produced the residues
                    zs = sorted(set(zs), key=lambda t: int(t.decl().name()[2:]))
                    t = z3.BitVecVal(0, 32)
                    for c in zs:
                        t = t + z3.ZeroExt(31, z3.If(c == 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
                    count_check(prog, R, st, v, zs, m)
                else:
                    prog.report(st, sc.b_xor(sc.b_not(sc.eq(v, 0, 32)), z3.And(*[c != 0 for c in zs])), m)
                return
            if ident == 70:
                m = "hint is the inverse of the product of the transform"
                t = {(): 1}
                for r in rho:
                    t = A.mul(t, R.ev(x0, r))
                R.same(st, [sc.trunc(v, 32, 16)], [R.inv(t)], m)
                return
            raise AssertionError(ident)
        prog.externs["vp_alg"] = cb
    return setup


def count_check(prog, R, st, v, zs, msg):
    terms = []
    const = 0

    def flat(x):
        """terms whose exact (unbounded) sum is x, and the largest value of that sum; None when it might wrap"""
        if z3.is_bv_value(x):
            return [], x.as_long(), x.as_long()
        k = x.decl().kind()
        if k == z3.Z3_OP_BADD:
            ts, c, mx = [], 0, 0
            for y in x.children():
                t = flat(y)
                if t is None:
                    return None
                ts, c, mx = ts + t[0], c + t[1], mx + t[2]
            return (ts, c, mx) if mx < 1 << x.size() else ([x], 0, (1 << x.size()) - 1)
        if k == z3.Z3_OP_ZERO_EXT or (k == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0):
            return flat(x.arg(x.num_args() - 1))
        return [x], 0, (1 << x.size()) - 1
    import sys
    sys.setrecursionlimit(100000)
    terms, const, _ = flat(v.z())
    ok = const == 0
    for t in terms:
        if len(sc.vars_of(t)) != 1:
            ok = False
    byv = {}
    for t in terms if ok else ():
        byv.setdefault(next(iter(sc.vars_of(t))), []).append(z3.ZeroExt(32 - t.size(), t) if t.size() < 32 else t)
    ids = [c.get_id() for c in zs]
    if ok and set(byv) == set(ids) and len(zs) == R.n:
        for c in zs:
            t = byv[c.get_id()]
            s = t[0]
            for y in t[1:]:
                s = s + y
            prog.report(st, s != z3.If(c == 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), msg)
        return
    w = z3.BitVecVal(0, 32)
    for c in zs:
        w = w + z3.If(c == 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    prog.report(st, v.z() != w, msg)
