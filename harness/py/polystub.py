"""polyntt (an outside package that is not installed): polynomials modulo q and x^n + 1.  Sums are computed; a product or inverse is a vector of
free residues (the same for the same factors), except that a transform followed by its inverse gives the operand back.  Works on symbolic and concrete values."""
import types


class Ring:
    """elements as sums of monomials over atoms (vectors of residues)"""

    def __init__(self, a, q):
        self.a, self.q = a, q
        self.atoms = []          # coefficient lists
        self.prods = {}          # monomial -> coefficient list
        self.invs = []           # (expr, atom)
        self.known = []          # (expression, its coefficients) already computed

    def same(self, x, y):
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if p is not q and (p == q) is False:
                return False
        return self.a.must(self.a.alleq(x, y))

    def atom(self, cs):
        for i, c in enumerate(self.atoms):
            if self.same(c, cs):
                return i
        self.atoms.append(list(cs))
        return len(self.atoms) - 1

    hook = None

    def free(self, n):
        if self.hook:
            return Ring.hook(self, n)
        return [self.a.int(0, self.q - 1) for _ in range(n)]


def make(a):
    rings = {}

    def ring(q):
        return rings.setdefault(q, Ring(a, q))

    class E:
        """expression: {monomial (sorted tuple of atoms): coefficient}"""

        def __init__(self, R, n, d):
            self.R, self.n, self.d = R, n, {k: v % R.q for k, v in d.items() if v % R.q}

        def add(self, o, s=1):
            d = dict(self.d)
            for k, v in o.d.items():
                d[k] = d.get(k, 0) + s * v
            return E(self.R, self.n, d)

        def mul(self, o):
            d = {}
            for k, v in self.d.items():
                for k2, v2 in o.d.items():
                    m = list(k) + list(k2)
                    # an element times its inverse
                    for x, y in self.R.invs:
                        while x in m and y in m and (x != y or m.count(x) > 1):
                            m.remove(x)
                            m.remove(y)
                    m = tuple(sorted(m))
                    d[m] = d.get(m, 0) + v * v2
            return E(self.R, self.n, d)

        def coeffs(self):
            R = self.R
            out = [0] * self.n
            for m, v in sorted(self.d.items()):
                if len(m) == 0:
                    c = [1] + [0] * (self.n - 1)
                elif len(m) == 1:
                    c = R.atoms[m[0]]
                else:
                    if m not in R.prods:
                        R.prods[m] = R.free(self.n)
                    c = R.prods[m]
                out = [x + v * y if v != R.q - 1 else x - y for x, y in zip(out, c)]
            out = [x % R.q for x in out]
            if not (len(self.d) == 1 and list(self.d.values()) == [1] and len(next(iter(self.d))) == 1):
                R.known.append((self, out))
            return out

    def atom(R, cs):
        cs = [c % R.q for c in cs]
        for e, v in R.known:
            if R.same(v, cs):
                return e
        return E(R, len(cs), {(R.atom(cs),): 1})

    class Tr(list):
        """transformed vector: remembers what it is the transform of"""
        e = None

    class NTT:
        def __init__(self, q):
            self.q = q
            self.R = ring(q)
            if not hasattr(self.R, "tr"):
                self.R.tr = []      # (expr, values)

        def of(self, v):
            """expression whose transform is v"""
            R = self.R
            if isinstance(v, Tr) and v.e is not None and R.same(v, v.vals):
                return v.e
            for e, vals in R.tr:
                if R.same(vals, v):
                    return e
            # an arbitrary vector is the transform of something unknown
            e = atom(R, R.free(len(v)))
            R.tr.append((e, list(v)))
            return e

        def tr(self, e):
            R = self.R
            for x, vals in R.tr:
                if x.d == e.d:
                    break
            else:
                vals = R.free(e.n)
                R.tr.append((e, vals))
            t = Tr(vals)
            t.e, t.vals = e, list(vals)
            return t

        def ntt(self, f):
            return self.tr(atom(self.R, f) if not hasattr(f, "e") else f.e)

        def intt(self, v):
            return self.of(v).coeffs()

        def vec_mul(self, x, y):
            return [p * q % self.q for p, q in zip(x, y)]

        def vec_add(self, x, y):
            return [(p + q) % self.q for p, q in zip(x, y)]

        def vec_sub(self, x, y):
            return [(p - q) % self.q for p, q in zip(x, y)]

        mul_pw = vec_mul

    class Poly:
        def __init__(self, coeffs, q, ntt=None):
            self._c, self.q, self.R = coeffs, q, ring(q)
            self.NTT = NTT(q)
            self._e = None

        @property
        def coeffs(self):
            if self._c is None:
                self._c = self._e.coeffs()
            return self._c

        @property
        def e(self):
            if self._e is None:
                self._e = atom(self.R, self._c)
            return self._e

        def _mk(self, e):
            p = Poly(None, self.q)
            p._e = e
            return p

        def __add__(self, o):
            return self._mk(self.e.add(o.e))

        def __sub__(self, o):
            return self._mk(self.e.add(o.e, -1))

        def __neg__(self):
            return self._mk(E(self.R, self.e.n, {}).add(self.e, -1))

        def __mul__(self, o):
            return self._mk(self.e.mul(o.e))

        def ntt(self):
            return self.NTT.tr(self.e)

        def inverse(self):
            R = self.R
            k = self.e.d
            if len(k) == 1 and len(next(iter(k))) == 1 and next(iter(k.values())) == 1:
                x = next(iter(k))[0]
            else:
                x = R.atom(self.coeffs)
            for p, y in R.invs:
                if p == x:
                    return self._mk(E(R, self.e.n, {(y,): 1}))
            y = R.atom(R.free(self.e.n))
            R.invs.append((x, y))
            return self._mk(E(R, self.e.n, {(y,): 1}))

        def __truediv__(self, o):
            return self._mk(self.e.mul(o.inverse().e))
        div = __truediv__

    def generic():
        """no two vectors coincide by accident (a preference for models that can be replayed)"""
        cs = []
        for R in rings.values():
            for g in ([list(c) for c in R.atoms] + [v for _, v in R.known], [v for _, v in getattr(R, "tr", [])]):
                for i in range(len(g)):
                    for j in range(i):
                        if len(g[i]) == len(g[j]):
                            c = a.notc(a.alleq(g[i], g[j]))
                            if c is not False:
                                cs.append(c)
        return a.andc(*cs)
    if hasattr(a, "prefer"):
        a.prefer(generic)

    def rings_reset():
        rings.clear()
        Ring.hook = None

    def sethook(f):
        Ring.hook = f
    top = types.ModuleType("polyntt")
    mp, mi, mr, mu = [types.ModuleType("polyntt." + x) for x in ("poly", "ntt_iterative", "ntt_recursive", "utils")]
    mp.Poly = Poly
    mi.NTTIterative = NTT

    class NTTRec(NTT):
        pass
    mr.NTTRecursive = NTTRec
    top.poly, top.ntt_iterative, top.ntt_recursive, top.reset, top.hook = mp, mi, mr, rings_reset, sethook
    return {"polyntt": top, "polyntt.poly": mp, "polyntt.ntt_iterative": mi, "polyntt.ntt_recursive": mr, "polyntt.utils": mu}
