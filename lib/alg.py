"""Algebraic domain Z_q[x] for llsym.

A residue computed by a *summarised* function (a pure scalar function of the code under test which the solver has proved, for all
operands in 0..q-1, to be addition, subtraction, halving or (scaled) multiplication modulo q) is a fresh 16-bit constant r with
0 <= r < q, and a side table maps r to a polynomial over Z_q: a dict {monomial: coefficient}, monomial = ((atom, exponent), ...).
Atoms: ('x', i) = residue of input i, ('d', k) = the linear form number k (introduced when two sums are multiplied),
('t', id) = an arbitrary term below q.  Everything else the code does with r is ordinary bit-vector reasoning."""
import fcntl, hashlib, json, os, random, re, time
import z3
import symcore as sc
from symcore import V, Inconclusive
from vpcore import scratch


def padd(a, b, q, kb=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + kb * c) % q
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k, q):
    k %= q
    return {m: c * k % q for m, c in a.items()} if k else {}


class Alg:
    def __init__(self, prog, q, cache_dir=None):
        self.prog, self.q = prog, q
        self.qinv32 = pow(q, -1, 1 << 32)
        self.qinv64 = pow(q, -1, 1 << 64)
        self.byid = {}        # id of const r -> poly
        self.memo = {}        # content -> r
        self.keep = []
        self.defs = {}        # frozen normalised form -> k
        self.deflist = []
        self.lifts = {}
        self.sums = {}
        self.nlift = 0
        self.uses = {}
        self.residues = {}
        prog.solver.dom = {}

    # -- values <-> polynomials
    def lower(self, p, w):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        k = frozenset(p.items())
        r = self.memo.get(k)
        if r is None:
            t = z3.BitVec("r!%d" % len(self.memo), 16)
            r = self.memo[k] = t
            i = t.get_id()
            sc.vars_of(t)
            self.byid[i] = p
            self.prog.solver.dom[i] = z3.ULT(t, self.q)
        return V(w, ((r, 16, 0), (None, w - 16, 0)) if w > 16 else ((r, 16, 0),))

    def poly_of(self, v):
        """polynomial of a value that is exactly a residue constant (or an int), else None"""
        if v.__class__ is int:
            return {(): v} if v else {}
        s = v.segs
        if s[0][0] is not None and s[0][1] == min(16, v.w) and s[0][2] == 0 and all(x[0] is None and x[2] == 0 for x in s[1:]):
            return self.byid.get(s[0][0].get_id())
        return None

    def lift(self, st, v, w):
        """polynomial of a value known to lie in 0..q-1; None when that cannot be shown"""
        if v.__class__ is int:
            return ({(): v} if v else {}) if v < self.q else None
        p = self.poly_of(v)
        if p is not None:
            return p
        t = z3.simplify(v.z())
        if z3.is_bv_value(t):
            return self.lift(st, t.as_long(), w)
        sv = self.prog.solver
        sv.sync(st.pc)
        vs = sc.vars_of(t)
        rel = set()
        for x in vs:
            rel.update(st.pc[i].get_id() for i in sv.index.get(x, ()))
        key = (t.get_id(), frozenset(rel))
        if key in self.lifts:
            return self.lifts[key]
        self.keep.append(t)
        m = st.get_model()
        if w > 14 and sv.check(st.pc, z3.UGE(t, self.q), base=m) is not None:
            p = None
        else:
            p = self._residue(st, t, w, vs, m)
        self.lifts[key] = p
        self.nlift += 1
        return p

    def divisible(self, d, w):
        """condition: the w-bit signed value d is one of 0, q, -q, 2q, -2q"""
        q = self.q
        return z3.Or(*[d == z3.BitVecVal(k * q, w) for k in (0, 1, -1, 2, -2)])

    def _residue(self, st, t, w, vs, m):
        if len(vs) == 1:
            (x,) = vs
            c = sc._const_of[x]
            t32 = z3.ZeroExt(32 - w, t) if w < 32 else z3.Extract(31, 0, t)
            cands = []
            if x in self.byid:
                cands.append((z3.ZeroExt(16, c), self.byid[x]))
            else:
                name = c.decl().name()
                mm = re.match(r"in(\d+)_", name)
                if mm and c.size() <= 16:
                    i = int(mm.group(1))
                    cands.append((z3.SignExt(32 - c.size(), c), {((("x", i), 1),): 1}))
                    cands.append((z3.ZeroExt(32 - c.size(), c), {((("x", i), 1),): 1}))
            for cv, p in cands:
                for sg in (1, -1):
                    d = t32 - cv if sg == 1 else t32 + cv
                    if self.prog.solver.check(st.pc, z3.Not(self.divisible(d, 32)), base=m) is None:
                        return p if sg == 1 else pscale(p, -1, self.q)
        return {((("t", t.get_id()), 1),): 1}

    def signed_poly(self, st, v, w, signed=True):
        """polynomial congruent to the (signed) w-bit value v, by solver proof, or None"""
        if v.__class__ is int:
            if signed and v >> (w - 1):
                v -= 1 << w
            v %= self.q
            return {(): v} if v else {}
        t = z3.simplify(v.z())
        t32 = z3.SignExt(32 - w, t) if signed and w < 32 else z3.ZeroExt(32 - w, t) if w < 32 else t
        vs = sc.vars_of(t)
        m = st.get_model()
        for x in vs:
            c = sc._const_of[x]
            if x in self.byid:
                cands = [(z3.ZeroExt(16, c), self.byid[x])]
            else:
                mm = re.match(r"in(\d+)_", c.decl().name())
                if not mm or c.size() > 16:
                    continue
                p = {((("x", int(mm.group(1))), 1),): 1}
                cands = [(z3.SignExt(32 - c.size(), c), p), (z3.ZeroExt(32 - c.size(), c), p)]
            for cv, p in cands:
                for sg in (1, -1):
                    d = t32 - cv if sg == 1 else t32 + cv
                    if self.prog.solver.check(st.pc, z3.Not(self.divisible(d, 32)), base=m) is None:
                        return p if sg == 1 else pscale(p, -1, self.q)
        return None

    # -- arithmetic on polynomials
    def atomise(self, p):
        """(scalar, monomial) equal to p; sums become definitional atoms"""
        if len(p) == 1:
            (m, c), = p.items()
            return c, m
        lead = p[min(p)]
        inv = pow(lead, -1, self.q)
        n = pscale(p, inv, self.q)
        k = frozenset(n.items())
        i = self.defs.get(k)
        if i is None:
            i = self.defs[k] = len(self.deflist)
            self.deflist.append(n)
        return lead, ((("d", i), 1),)

    def mul(self, a, b, c=1):
        q = self.q
        if not a or not b:
            return {}
        if len(a) == 1 and () in a:
            return pscale(b, a[()] * c, q)
        if len(b) == 1 and () in b:
            return pscale(a, b[()] * c, q)
        ka, ma = self.atomise(a)
        kb, mb = self.atomise(b)
        d = dict(ma)
        for x, e in mb:
            d[x] = d.get(x, 0) + e
        return {tuple(sorted(d.items())): ka * kb * c % q}

    # -- summaries
    def call(self, st, g, args):
        if all(a.__class__ is int for a in args):
            return None
        s = self.summary(g)
        if s is None:
            return None
        kind, c, w = s
        ps = []
        for a in args:
            if a.__class__ not in (int, V):
                return None
            p = self.lift(st, a, w)
            if p is None:
                return None
            ps.append(p)
        self.uses[kind] = self.uses.get(kind, 0) + 1
        q = self.q
        if kind == "add":
            r = padd(ps[0], ps[1], q)
        elif kind == "sub":
            r = padd(ps[0], ps[1], q, -1)
        elif kind == "rsub":
            r = padd(ps[1], ps[0], q, -1)
        elif kind == "scale":
            r = pscale(ps[0], c, q)
        else:
            r = self.mul(ps[0], ps[1], c)
        return self.lower(r, w)

    def summary(self, g):
        k = (g.mod.name, g.name)
        if k in self.sums:
            return self.sums[k]
        self.sums[k] = None
        text = "\n".join(g.body)
        mm = re.search(r"(i16|i32|i64) @", g.header)
        if not mm or re.search(r"\b(load|store|alloca|getelementptr|call|invoke)\b", text) or re.search(r"\bptr\b", g.header) \
                or g.byval or len(g.params) not in (1, 2):
            return None
        ws = re.findall(r"\b(i\d+) (?:noundef |zeroext |signext |range\([^)]*\) )*%", g.header[g.header.index("@"):])
        if any(x != mm.group(1) for x in ws) or len(ws) != len(g.params):
            return None
        w = int(mm.group(1)[1:])
        hk = hashlib.sha256(("%d|" % self.q + g.header + text).encode()).hexdigest()[:24]
        path = os.path.join(scratch(), "summ." + hk)
        with open(path + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(path):
                r = json.load(open(path))
            else:
                t = time.time()
                r = self._find(g, w)
                self.prog.solver.time += time.time() - t
                json.dump(r, open(path, "w"))
        r = self.sums[k] = tuple(r) if r else None
        if r:
            self.prog.used.add("%s (proved: %s%s mod %d)" % (g.name[1:], r[0], "" if r[0] in ("add", "sub", "rsub") else " *%d" % r[1], self.q))
        return r

    def _conc(self, g, args):
        rs = self.prog.explore(g, list(args), [])
        if len(rs) != 1 or rs[0][1].__class__ is not int:
            raise Inconclusive("concrete call of %s" % g.name)
        return rs[0][1]

    def _find(self, g, w):
        q = self.q
        rnd = random.Random(7)
        n = len(g.params)
        pts = [tuple(rnd.randrange(q) for _ in range(n)) for _ in range(12)] + [(q - 1,) * n, (0,) * n]
        try:
            vals = [self._conc(g, p) for p in pts]
        except Inconclusive:
            return None
        if any(v >= q for v in vals):
            return None
        kind = None
        if n == 1:
            c = self._conc(g, (1,))
            if all(v == c * p[0] % q for v, p in zip(vals, pts)):
                kind = "scale"
        else:
            c = self._conc(g, (1, 1))
            for nm, f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("rsub", lambda a, b: b - a), ("mul", lambda a, b: c * a * b)):
                if all(v == f(*p) % q for v, p in zip(vals, pts)):
                    kind = nm
                    break
        if kind is None:
            return None
        return [kind, c, w] if self.prove(g, kind, c, w) else None

    def prove(self, g, kind, c, w):
        """for all operands below q: the result is below q and congruent to the template"""
        q = self.q
        xs = [z3.BitVec("sx%d" % i, 14) for i in range(len(g.params))]
        vs = [V(w, ((x, 14, 0), (None, w - 14, 0))) for x in xs]
        pre = [z3.ULT(x, q) for x in xs]
        paths = self.prog.explore(g, vs, pre)
        W = 32
        X = [z3.ZeroExt(W - 14, x) for x in xs]
        for pc, r in paths:
            R = sc.tz(r, w)
            R = z3.ZeroExt(W - w, R) if w < W else z3.Extract(W - 1, 0, R) if w > W else R
            full = sc.tz(r, w)
            big = z3.UGE(full, q)
            if kind == "add":
                bads = [z3.And(R != X[0] + X[1], R != X[0] + X[1] - q)]
            elif kind == "sub":
                bads = [z3.And(R != X[0] - X[1], R != X[0] - X[1] + q)]
            elif kind == "rsub":
                bads = [z3.And(R != X[1] - X[0], R != X[1] - X[0] + q)]
            else:
                Rm = pow(2, 16, q)
                if kind == "scale":
                    prod = X[0]
                else:
                    prod = X[0] * X[1]
                bads = []
                if kind == "mul" and c * Rm % q == 1:
                    # canonical form of the Montgomery product: (p + k q) / 2^16, reduced once, with k = -p/q mod 2^16
                    k = (prod * z3.BitVecVal((-pow(q, -1, 1 << 16)) % (1 << 16), W)) & 0xffff
                    u = z3.LShR(prod + k * q, 16)
                    d = R != z3.If(z3.ULT(u, q), u, u - q)
                elif kind == "mul" and c == 1:
                    d = R != z3.URem(prod, z3.BitVecVal(q, W))
                elif c == 1:
                    d = R - prod
                elif kind == "scale" and 2 * c % q == 1:
                    d = R + R - prod
                elif kind == "scale":
                    d = z3.URem(prod * z3.BitVecVal(c, W), z3.BitVecVal(q, W)) != R        # < 2^28
                else:
                    return False
                if kind == "mul":
                    # first with the product abstracted to one number below (q-1)^2
                    p = z3.BitVec("sp", W)
                    b = z3.simplify(z3.Or(z3.UGE(R, q), d if z3.is_bool(d) else z3.Not(self.divisible(d, W))))
                    b2 = b
                    for x, y in ((X[0], X[1]), (X[1], X[0])):
                        b2 = z3.substitute(b2, (z3.simplify(x * y), p))
                    if not any(v.get_id() in sc.vars_of(b2) for v in xs) and not pc[len(pre):]:
                        if self._unsat([z3.ULE(p, (q - 1) ** 2), b2]):
                            bads = None
                if bads is not None:
                    bads.append(d if z3.is_bool(d) else z3.Not(self.divisible(d, W)))
            if bads is None:
                if not (w <= 32 or self._unsat(list(pc) + [big])):
                    return False
                continue
            if not self._unsat(list(pc) + [z3.Or(big, *bads)]):
                return False
        return True

    def _unsat(self, cs):
        s = z3.SolverFor("QF_BV")
        s.set("timeout", 240000)
        s.add(*cs)
        self.prog.solver.queries += 1
        return s.check() == z3.unsat

    # -- counterexample inputs: choose inputs so that the linear forms behind the residues of the model take their values
    def complete(self, m, st, seed=0):
        import numpy as np
        q = self.q
        ins = [(sc.model_val(m, v, w), v, w) for v, w in st.inputs]
        out = [x[0] for x in ins]
        rows, rhs = [], []
        used = set()

        def lin(p):
            for mono in p:
                if mono and not (len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == "x"):
                    return False
            return True
        want = []
        for i, p in self.byid.items():
            x = m.d.get(i)
            if x is not None:
                want.append((p, x.as_long()))
        for p, x in want:
            if not lin(p):
                # zero of a product / power: make one linear factor zero
                if x == 0 and len(p) == 1:
                    (mono, _), = p.items()
                    at = mono[0][0]
                    p = self.deflist[at[1]] if at[0] == "d" else {((at, 1),): 1}
                    if not lin(p):
                        continue
                else:
                    continue
            rows.append(p)
            rhs.append(x)
            used |= {mm[0][0][1] for mm in p if mm}
        if rows:
            rnd = random.Random(seed + 1)
            cols = sorted(used)
            ci = {c: k for k, c in enumerate(cols)}
            A = np.zeros((len(rows), len(cols) + 1), dtype=np.int64)
            for k, (p, x) in enumerate(zip(rows, rhs)):
                for mm, c in p.items():
                    if mm:
                        A[k, ci[mm[0][0][1]]] = c
                A[k, -1] = (x - p.get((), 0)) % q
            piv, r = [], 0
            for c in range(len(cols)):
                nz = np.nonzero(A[r:, c])[0]
                if len(nz) == 0:
                    continue
                k = r + int(nz[0])
                if k != r:
                    A[[r, k]] = A[[k, r]]
                A[r] = A[r] * pow(int(A[r, c]), -1, q) % q
                o = np.nonzero(A[:, c])[0]
                for k in o:
                    if k != r:
                        A[k] = (A[k] - A[k, c] * A[r]) % q
                piv.append(c)
                r += 1
                if r == len(rows):
                    break
            val = {c: rnd.randrange(q) if seed else ins[c][0] % q for c in cols}
            pc = {cols[c] for c in piv}
            free = [k for k, c in enumerate(cols) if c not in pc]
            for k, c in enumerate(piv):
                s = int(A[k, -1])
                for f in free:
                    if A[k, f]:
                        s -= int(A[k, f]) * val[cols[f]]
                val[cols[c]] = s % q
            for c in cols:
                w = ins[c][2]
                x = val[c]
                # signed representative when the term was read as signed
                if w <= 16 and c in self.signed_inputs:
                    if x > q // 2:
                        x -= q
                out[c] = x & ((1 << w) - 1)
        elif seed:
            rnd = random.Random(seed)
            for k in range(len(out)):
                if k in self.signed_inputs:
                    out[k] = rnd.randrange(-self.rand_small, self.rand_small + 1) & 0xffff
        return out

    def candidates(self, m, st):
        return []

    def random_inputs(self, st, seed):
        rnd = random.Random(100 + seed)
        vals = []
        for i, (v, w) in enumerate(st.inputs):
            if w == 8:
                x = rnd.randrange(-3, 4) & 0xff
            elif i in self.signed_inputs:
                x = rnd.randrange(-self.q // 2 + 1, self.q // 2) & 0xffff
            else:
                x = rnd.randrange(self.q)
            vals.append(x)
        return vals

    signed_inputs = frozenset()
    rand_small = 1000
