"""Integers whose bits are kept in XOR normal form: every bit is a set (a bitset in a Python int) of atoms; bit 0 of the set is the constant 1,
an atom is an input bit or the conjunction of two normal forms.  Conjunctions are interned, so equal normal forms are the same function;
XOR, NOT, rotations and shifts are exact and canonical, which is what Keccak and SHAKE are made of."""


class Space:
    def __init__(self):
        self.n = 1               # next atom
        self.ands = {}           # (a, b) -> atom
        self.kind = [None]       # atom -> ("in", i, bit) | ("and", a, b)

    def fresh(self, tag):
        k = self.n
        self.n += 1
        self.kind.append(tag)
        return 1 << k

    def land(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        if a == b:
            return a
        if a ^ b == 1:
            return 0
        # canonical: constants are moved out, (a^1)&b = (a&b)^b
        r = 0
        if a & 1:
            r ^= b
            a ^= 1
        if b & 1:
            r ^= a
            b ^= 1
        if a == b:
            return r ^ a
        k = (a, b) if a < b else (b, a)
        x = self.ands.get(k)
        if x is None:
            x = self.ands[k] = self.fresh(("and",) + k)
        return r ^ x

    def evaluator(self, inputs):
        """values of all atoms for concrete inputs; returns a function of a normal form"""
        val = 1                  # bitset of true atoms (bit 0: the constant)
        for k in range(1, self.n):
            t = self.kind[k]
            if t[0] == "in":
                v = inputs[t[1]] >> t[2] & 1
            else:
                v = ((t[1] & val).bit_count() & 1) & ((t[2] & val).bit_count() & 1)
            if v:
                val |= 1 << k
        return lambda f: (f & val).bit_count() & 1


SP = None


def reset():
    global SP
    SP = Space()


def const_bits(x, n):
    return [x >> i & 1 for i in range(n)]


def mk(bits):
    n = len(bits)
    while n and bits[n - 1] == 0:
        n -= 1
    bits = bits[:n]
    if all(b < 2 for b in bits):
        return sum(b << i for i, b in enumerate(bits))
    return GFInt(bits)


def bits_of(x, n=None):
    if isinstance(x, GFInt):
        b = x.b
    else:
        x = int(x)
        if x < 0:
            assert n is not None
            return [x >> i & 1 for i in range(n)]
        b = const_bits(x, x.bit_length())
    if n is None:
        return b
    return b[:n] + [0] * (n - len(b))


class GFInt:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __xor__(self, o):
        if not isinstance(o, (int, GFInt)):
            return NotImplemented
        n = max(len(self.b), len(bits_of(o)))
        return mk([x ^ y for x, y in zip(bits_of(self, n), bits_of(o, n))])
    __rxor__ = __xor__

    def __and__(self, o):
        if not isinstance(o, (int, GFInt)):
            return NotImplemented
        n = len(self.b) if isinstance(o, int) else min(len(self.b), len(o.b))
        f = SP.land
        return mk([f(x, y) for x, y in zip(bits_of(self, n), bits_of(o, n))])
    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, (int, GFInt)):
            return NotImplemented
        n = max(len(self.b), len(bits_of(o)))
        f = SP.land
        return mk([x ^ y ^ f(x, y) for x, y in zip(bits_of(self, n), bits_of(o, n))])
    __ror__ = __or__

    def __lshift__(self, k):
        return mk([0] * int(k) + self.b)

    def __rshift__(self, k):
        return mk(self.b[int(k):])

    def __add__(self, o):
        """only when no two bits meet"""
        if not isinstance(o, (int, GFInt)):
            return NotImplemented
        n = max(len(self.b), len(bits_of(o)))
        x, y = bits_of(self, n), bits_of(o, n)
        if any(p and q for p, q in zip(x, y)):
            from pysym import Give
            raise Give("addition in the XOR domain")
        return mk([p | q for p, q in zip(x, y)])
    __radd__ = __add__

    def __mod__(self, m):
        assert m & (m - 1) == 0 and m > 0
        return mk(self.b[:m.bit_length() - 1])

    def __floordiv__(self, m):
        assert m & (m - 1) == 0 and m > 0
        return self >> (m.bit_length() - 1)

    def __mul__(self, m):
        assert m & (m - 1) == 0 and m > 0
        return self << (m.bit_length() - 1)
    __rmul__ = __mul__

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, GFInt) and o.b == self.b:
            return True
        from pysym import Give
        raise Give("comparison in the XOR domain")

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(self.b))

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        import pysym
        if len(self.b) > 8 * length:
            raise pysym.Give("to_bytes in the XOR domain")
        bs = [mk(bits_of(self, 8 * length)[8 * i:8 * i + 8]) for i in range(length)]
        return pysym.mkbytes(bs if byteorder == "little" else bs[::-1])

    def __bool__(self):
        from pysym import Give
        raise Give("branch in the XOR domain")

    def __repr__(self):
        return "<gf %d>" % len(self.b)


def fresh(nbits, idx):
    return mk([SP.fresh(("in", idx, i)) for i in range(nbits)])


def join(bs):
    """little-endian bytes -> integer"""
    out = []
    for x in bs:
        out += bits_of(x, 8)
    return mk(out)
