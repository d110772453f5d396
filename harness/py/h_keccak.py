"""keccak.py / shake.py: the permutation and the sponge."""
M64 = (1 << 64) - 1


def spec_f1600(A):
    """FIPS 202, section 3: A[x + 5y]"""
    def rot(v, k):
        k %= 64
        return ((v << k) & M64) ^ (v >> (64 - k)) if k else v

    # rho offsets
    off = [0] * 25
    x, y = 1, 0
    for t in range(24):
        off[x + 5 * y] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5

    def rc(t):
        R = 1
        for _ in range(t % 255):
            R <<= 1
            if R & 256:
                R ^= 0x171
        return R & 1
    A = list(A)
    for ir in range(24):
        C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
        D = [C[(x - 1) % 5] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
        A = [A[i] ^ D[i % 5] for i in range(25)]
        A = [rot(A[i], off[i]) for i in range(25)]
        B = [None] * 25
        for x in range(5):
            for y in range(5):
                B[x + 5 * y] = A[(x + 3 * y) % 5 + 5 * x]
        A = [B[i] ^ ((B[(i % 5 + 1) % 5 + i // 5 * 5] ^ M64) & B[(i % 5 + 2) % 5 + i // 5 * 5]) for i in range(25)]
        c = 0
        for j in range(7):
            c |= rc(j + 7 * ir) << ((1 << j) - 1)
        A[0] = A[0] ^ c
    return A


def setup(a):
    if a.sym:
        import pystubs
        a.stubs({"numpy": pystubs.numpy()})
    return a.load("keccak")


def f1600(a):
    K = setup(a)
    # the state words that are unknown; the others are 0 or fixed
    live = a.p["live"]
    s = [a.gfint(64) if i in live else a.p.get("fill", 0) for i in range(25)]
    k = K.Keccak()
    for i in range(25):
        k.state[i] = s[i]
    k.F1600()
    out = [int(k.state[i]) if not a.sym else getattr(k.state[i], "v", k.state[i]) for i in range(25)]
    a.gfeq(out, spec_f1600(s), "the permutation is Keccak-f[1600]")
    a.wit("done")


class Sponge:
    """the specification: multi-rate padding, absorbing block by block, with the permutation as an unknown function of the state"""

    def __init__(self, a, data, rate, ds, perm):
        pad = [0] * (rate - len(data) % rate)
        pad[0] ^= ds
        pad[-1] ^= 0x80
        d = data + pad
        st = [0] * 200
        for i in range(0, len(d), rate):
            st = [x ^ y for x, y in zip(st, d[i:i + rate])] + st[rate:]
            st = perm(st)
        self.st, self.rate, self.perm, self.pos = st, rate, perm, 0

    def squeeze(self, n):
        out = []
        while len(out) < n:
            if self.pos == self.rate:
                self.st, self.pos = self.perm(self.st), 0
            out.append(self.st[self.pos])
            self.pos += 1
        return out


def perm_of(a, K):
    """the permutation on 200 bytes"""
    def real(d):
        k = K.Keccak()
        import numpy
        k.state = numpy.frombuffer(bytes(d), dtype=numpy.uint64).copy()
        k.F1600()
        return k.state.tobytes()

    return lambda st: list(a.uf("F1600", a.mkbytes(st), 200, real))


def sponge(a):
    K = setup(a)
    rate, ds, via = a.p["rate"], a.p["ds"], a.p["via"]
    perm = perm_of(a, K)
    if a.sym:
        import pystubs

        def F1600(self):
            b = perm(pystubs.elems(self.state.view(pystubs.uint8).tobytes()))
            self.state[:] = [pystubs.SInt.from_bytes(pystubs.mkbytes(b[8 * i:8 * i + 8]), "little") for i in range(25)]
        a.patch(K.Keccak, "F1600", F1600)
    # absorbed pieces: fixed lengths, or chosen freely in a range
    pieces = []
    for lo, hi in a.p["absorb"]:
        n = a.pick(lo, hi)
        pieces.append(a.bytes(n))
    reads = [a.pick(lo, hi) for lo, hi in a.p["squeeze"]]
    if via == "hash":
        h = K.KeccakHash(b=pieces[0], rate=rate, dsbyte=ds)
        for i, p in enumerate(pieces[1:]):
            if i % 2:
                h.update(p)
            else:
                h.absorb(p)
        h.pad()
        outs = [h.squeeze(n) for n in reads]
    else:
        S = a.load("shake").SHAKE
        h = S.new() if via == "shake0" else S(pieces[0])
        for p in pieces if via == "shake0" else pieces[1:]:
            h.update(p)
        h.flip()
        outs = [h.read(n) for n in reads]
    sp = Sponge(a, [b for p in pieces for b in p], rate, ds, perm)
    for n, o in zip(reads, outs):
        a.check(len(o) == n and a.alleq(o, sp.squeeze(n)), "the output is that of the sponge over the concatenated input")
    a.wit("done")
