"""Stand-ins for packages outside the repository, for symbolic runs (lib/pysym.py)."""
import types
import gf2
import pysym
from pysym import SymInt, SymBytes, elems, mkbytes, SInt


# ---- numpy -------------------------------------------------------------------
class DT:
    def __init__(self, name, n):
        self.name, self.n = name, n

    def __call__(self, x=0):
        return NU(x.v if isinstance(x, NU) else x, self)


uint8, uint16, uint32, uint64 = DT("uint8", 1), DT("uint16", 2), DT("uint32", 4), DT("uint64", 8)


def raw(x):
    return x.v if isinstance(x, NU) else x


class NU:
    """numpy unsigned scalar"""
    __slots__ = ("v", "t")

    def __init__(self, v, t):
        if isinstance(v, int):
            v &= (1 << 8 * t.n) - 1
        self.v, self.t = v, t

    def _m(self, v):
        return NU(v & ((1 << 8 * self.t.n) - 1), self.t)

    def _o(name):
        def f(self, o):
            import operator
            t = self if not isinstance(o, NU) or o.t.n <= self.t.n else o
            return t._m(getattr(operator, name)(self.v, raw(o)))

        def r(self, o):
            import operator
            return self._m(getattr(operator, name)(raw(o), self.v))
        return f, r
    __xor__, __rxor__ = _o("xor")
    __and__, __rand__ = _o("and_")
    __or__, __ror__ = _o("or_")
    __add__, __radd__ = _o("add")
    __sub__, __rsub__ = _o("sub")
    __mul__, __rmul__ = _o("mul")
    __floordiv__, __rfloordiv__ = _o("floordiv")
    __mod__, __rmod__ = _o("mod")
    del _o

    def __lshift__(self, k):
        k = int(raw(k))
        return NU(0, self.t) if k >= 8 * self.t.n else self._m(self.v << k)

    def __rshift__(self, k):
        k = int(raw(k))
        return NU(0, self.t) if k >= 8 * self.t.n else self._m(self.v >> k)

    def __invert__(self):
        return NU(self.v ^ ((1 << 8 * self.t.n) - 1), self.t)

    def __int__(self):
        return int(self.v)
    __index__ = __int__

    def __eq__(self, o):
        return self.v == raw(o)

    def __ne__(self, o):
        return self.v != raw(o)

    def __lt__(self, o):
        return self.v < raw(o)

    def __hash__(self):
        return hash(self.v)

    def __bool__(self):
        return bool(self.v)


def dt(d, default=uint64):
    return default if d is None else d


class NArr:
    """one-dimensional array over byte cells; slices and views share the cells"""

    def __init__(self, cells, t, off=0, n=None):
        self.c, self.t, self.off = cells, t, off
        self.n = (len(cells) - off) // t.n if n is None else n

    def __len__(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)
    size = property(lambda s: s.n)
    dtype = property(lambda s: s.t)
    nbytes = property(lambda s: s.n * s.t.n)

    def get(self, i):
        k = self.off + i * self.t.n
        b = self.c[k:k + self.t.n]
        if self.t.n == 1:
            return b[0]
        if any(isinstance(x, gf2.GFInt) for x in b):
            return gf2.join(b)
        if any(isinstance(x, SymInt) for x in b):
            return SInt.from_bytes(SymBytes(b), "little")
        return int.from_bytes(bytes(b), "little")

    def put(self, i, v):
        v = raw(v)
        n = self.t.n
        k = self.off + i * n
        if isinstance(v, gf2.GFInt):
            b = gf2.bits_of(v, 8 * n)
            self.c[k:k + n] = [gf2.mk(b[8 * j:8 * j + 8]) for j in range(n)]
        elif isinstance(v, int):
            self.c[k:k + n] = list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))
        else:
            self.c[k:k + n] = [(v >> (8 * j)) & 255 for j in range(n)]

    def _i(self, i):
        i = int(i)
        if i < 0:
            i += self.n
        if not 0 <= i < self.n:
            raise IndexError("index out of bounds")
        return i

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b, s = k.indices(self.n)
            assert s == 1
            return NArr(self.c, self.t, self.off + a * self.t.n, max(0, b - a))
        return NU(self.get(self._i(k)), self.t)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            a, b, s = k.indices(self.n)
            assert s == 1
            if isinstance(v, NArr):
                vals = [v.get(i) for i in range(v.n)]
            elif isinstance(v, (int, NU, SymInt, gf2.GFInt)):
                vals = [v] * max(0, b - a)
            else:
                vals = list(v)
            if len(vals) != max(0, b - a):
                if len(vals) == 1:
                    vals = vals * max(0, b - a)
                else:
                    raise ValueError("could not broadcast input array")
            for i, x in enumerate(vals):
                self.put(a + i, x)
            return
        self.put(self._i(k), v)

    def __iter__(self):
        return iter([self[i] for i in range(self.n)])

    def view(self, dtype=None):
        t = dtype or self.t
        nb = self.n * self.t.n
        if nb % t.n:
            raise ValueError("view size")
        return NArr(self.c, t, self.off, nb // t.n)

    def copy(self):
        return NArr(self.c[self.off:self.off + self.n * self.t.n], self.t)

    def astype(self, t):
        r = NArr([0] * (self.n * t.n), t)
        for i in range(self.n):
            r.put(i, self.get(i) & ((1 << 8 * t.n) - 1))
        return r

    def fill(self, v):
        self[:] = v

    def tobytes(self):
        return mkbytes(self.c[self.off:self.off + self.n * self.t.n])

    def tolist(self):
        return [self.get(i) for i in range(self.n)]

    def _bin(self, o, f, into):
        m = (1 << 8 * self.t.n) - 1
        if isinstance(o, NArr):
            if o.n != self.n and o.n != 1:
                raise ValueError("operands could not be broadcast together")
            vals = [o.get(i if o.n > 1 else 0) for i in range(self.n)]
        else:
            vals = [raw(o)] * self.n
        for i in range(self.n):
            into.put(i, f(self.get(i), vals[i]) & m)
        return into

    def _ops(op):
        import operator
        f = getattr(operator, op)
        return lambda s, o: s._bin(o, f, NArr([0] * (s.n * s.t.n), s.t)), lambda s, o: s._bin(o, f, s)
    __xor__, __ixor__ = _ops("xor")
    __and__, __iand__ = _ops("and_")
    __or__, __ior__ = _ops("or_")
    __add__, __iadd__ = _ops("add")
    __rxor__ = __xor__
    del _ops


def np_zeros(n, dtype=None):
    t = dt(dtype)
    return NArr([0] * (int(n) * t.n), t)


def np_array(x, dtype=None):
    if isinstance(x, NArr):
        return x.copy() if dtype is None else x.astype(dtype)
    e = elems(x)
    x = list(x) if e is None else e
    t = dt(dtype)
    r = NArr([0] * (len(x) * t.n), t)
    for i, v in enumerate(x):
        r.put(i, v)
    return r


def np_frombuffer(b, dtype=None):
    t = dt(dtype)
    e = elems(b)
    if e is None:
        if isinstance(b, str):
            raise TypeError("a bytes-like object is required")
        e = list(b)
    return NArr(list(e), t)


def numpy():
    m = types.ModuleType("numpy")
    m.uint8, m.uint16, m.uint32, m.uint64 = uint8, uint16, uint32, uint64
    m.zeros, m.array, m.frombuffer = np_zeros, np_array, np_frombuffer
    m.asarray = np_array
    m.empty = np_zeros
    m.ndarray = NArr
    m.copy = lambda x: x.copy()
    m.bitwise_xor = lambda x, y: x ^ y
    m.roll = lambda x, k: np_array([x.get((i - k) % x.n) for i in range(x.n)], x.t)
    m.set_printoptions = lambda *a, **k: None
    return m


# ---- hash functions as unknown functions ----------------------------------------
def crypto(api):
    """Crypto.Hash.keccak and Crypto.Cipher.AES"""
    top = types.ModuleType("Crypto")
    H = types.ModuleType("Crypto.Hash")
    kk = types.ModuleType("Crypto.Hash.keccak")

    class K:
        def __init__(self, nbytes, data):
            self.d, self.n = [], nbytes
            if data:
                self.update(data)

        def update(self, b):
            e = elems(b)
            if e is None:
                raise TypeError("object supporting the buffer API required")
            self.d += e
            return self

        def digest(self):
            return api.uf("keccak%d" % self.n, mkbytes(self.d), self.n, None)

        def hexdigest(self):
            return self.digest().hex()

    def new(**kw):
        n = kw.get("digest_bytes") or kw.get("digest_bits") // 8
        return K(n, kw.get("data"))
    kk.new = new
    H.keccak = kk
    C = types.ModuleType("Crypto.Cipher")
    A = types.ModuleType("Crypto.Cipher.AES")
    A.MODE_ECB = 1

    class Ecb:
        def __init__(self, key):
            if len(key) not in (16, 24, 32):
                raise ValueError("Incorrect AES key length")
            self.key = elems(key)

        def encrypt(self, b):
            e = elems(b)
            if len(e) % 16:
                raise ValueError("Data must be aligned to block boundary in ECB mode")
            r = b""
            for i in range(0, len(e), 16):
                r = r + api.uf("aes%d" % len(self.key), mkbytes(self.key + e[i:i + 16]), 16, None)
            return r

    def anew(key, mode, *a, **k):
        if mode != 1 or a or k:
            raise pysym.Give("AES mode")
        return Ecb(key)
    A.new = anew
    C.AES = A
    top.Hash, top.Cipher = H, C
    return {"Crypto": top, "Crypto.Hash": H, "Crypto.Hash.keccak": kk, "Crypto.Cipher": C, "Crypto.Cipher.AES": A}


def hashlib_stub(api):
    import hashlib
    m = types.ModuleType("hashlib")
    m.__dict__.update({k: v for k, v in vars(hashlib).items() if not k.startswith("__")})

    class B:
        def __init__(self, data=b"", digest_size=32, **k):
            if k:
                raise pysym.Give("blake2s parameters")
            self.d, self.digest_size = list(elems(data)), digest_size

        def update(self, b):
            self.d += elems(b)

        def digest(self):
            return api.uf("blake2s%d" % self.digest_size, mkbytes(self.d), self.digest_size, None)

        def hexdigest(self):
            return self.digest().hex()
    m.blake2s = B
    return {"hashlib": m}


def enc_int(v, n):
    if isinstance(v, int):
        if v < 0 or v >> (8 * n):
            raise OverflowError("eth_abi: value out of range")
        return list(v.to_bytes(n, "big"))
    return elems(v.to_bytes(n, "big"))


def eth_abi():
    top = types.ModuleType("eth_abi")
    p = types.ModuleType("eth_abi.packed")

    def encode_packed(ts, vs):
        if len(ts) != len(vs):
            raise ValueError("eth_abi: types and values")
        out = []
        for t, v in zip(ts, vs):
            if t == "bytes":
                out += elems(v)
            elif t.startswith("uint"):
                out += enc_int(v, int(t[4:]) // 8)
            else:
                raise pysym.Give("encode_packed " + t)
        return mkbytes(out)

    def encode(ts, vs):
        head, tail = [], []
        hl = 32 * len(ts)
        for t, v in zip(ts, vs):
            if t == "bytes":
                e = elems(v)
                head += enc_int(hl + len(tail), 32)
                tail += enc_int(len(e), 32) + e + [0] * (-len(e) % 32)
            elif t.startswith("uint") and "[" not in t:
                k = int(t[4:])
                enc_int(v, k // 8)
                head += enc_int(v, 32)
            else:
                raise pysym.Give("encode " + t)
        return mkbytes(head + tail)
    p.encode_packed = encode_packed
    top.packed, top.encode = p, encode
    return {"eth_abi": top, "eth_abi.packed": p}
