"""samplerz.py and mkgauss.py: the exact integer parts of the samplers."""
from math import floor

RCDT = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903, 8595902006365044063,
        1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299, 638331848991, 14602316184, 247426747, 3104126,
        28824, 198, 1]
EXP = [0x00000004741183A3, 0x00000036548CFC06, 0x0000024FDCBF140A, 0x0000171D939DE045, 0x0000D00CF58F6F84, 0x000680681CF796E3, 0x002D82D8305B0FEA,
       0x011111110E066FD0, 0x0555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800, 0x8000000000000000]
CDT = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331, 575931623374121527, 242543240509105209,
       91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140, 590642893610164, 125206034929641, 23590435911403, 3948334035941,
       586753615614, 77391054539, 9056793210, 940121950, 86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]
LN2, ILN2, INV = 0.69314718056, 1.44269504089, 1 / (2 * 1.8205 ** 2)


class Bytes:
    """a source of free bytes"""

    def __init__(self, a):
        self.a, self.out, self.calls = a, [], []

    def __call__(self, k):
        b = [self.a.byte() for _ in range(k)]
        self.out += b
        self.calls.append(k)
        return self.a.mkbytes(b)


def base(a):
    m = a.load("samplerz")
    s = Bytes(a)
    z = m.basesampler(randombytes=s)
    a.check(s.calls == [9], "nine random bytes are used")
    u = a.frombytes(s.out)
    a.check(a.andc(z >= 0, z <= 18), "the base sample is in 0..18")
    w = 0
    for t in RCDT:
        w = w + a.ite(u < t, 1, 0)
    a.check(z == w, "the base sample is the number of table entries above the random value")
    a.wit("18", u == 0)
    a.wit("0", u >= RCDT[0])


class Fix:
    """a non-negative real given by its scaled value floor(x 2^63)"""

    def __init__(self, v):
        self.v = v

    def __mul__(self, o):
        if o != 1 << 63:
            raise Exception("scaled by something else")
        return self.v
    __rmul__ = __mul__


def approx(a):
    m = a.load("samplerz")
    if a.p["x"] is None:
        x = a.int(0, int(0.6931471805599454 * (1 << 63)))
    else:
        x = a.p["x"]
    c = a.int(1, 1 << 63) if a.p["c"] is None else a.p["c"]
    r = m.approxexp(Fix(x), Fix(c))
    y = EXP[0]
    for k in EXP[1:]:
        y = k - ((x * y) >> 63)
    y = ((c << 1) * y) >> 63
    a.check(r == y, "2^64 ccs exp(-x) is approximated with the FACCT polynomial, truncating each step")
    a.wit("done")


def ber(a):
    m = a.load("samplerz")
    Z = a.int(1, 1 << 64)
    k, eps = a.pick(*a.p["s"]), a.p["eps"]
    x = k / ILN2 + eps
    s0 = int(x * ILN2)
    ccs = 0.7
    seen = []

    def approxexp(r, c):
        seen.append((r, c))
        return Z
    a.patch(m, "approxexp", approxexp)
    src = Bytes(a)
    r = m.berexp(x, ccs, randombytes=src)
    a.check(len(seen) == 1 and abs(seen[0][0] - (x - s0 * LN2)) < 1e-12 and seen[0][1] == ccs, "the exponent is reduced modulo ln 2")
    z = (Z - 1) >> min(s0, 63)
    n = len(src.out)
    a.check(1 <= n <= 8 and src.calls == [1] * n, "between one and eight bytes are used, one at a time")
    u = 0
    for b in src.out:
        u = (u << 8) + b
    top = z >> (64 - 8 * n)
    a.check(r == (u < top), "the answer is whether the random fraction is below the probability")
    a.check(n == 8 or u != top, "bytes are drawn until the comparison is decided")
    a.check((z >> (64 - 8 * (n - 1))) == u >> 8, "no byte is drawn after the comparison is decided")
    a.wit("accept", r)
    a.wit("reject", a.notc(r))
    a.wit("last byte", n == 8)


def sampler(a):
    m = a.load("samplerz")
    mu, sigma, sigmin = a.p["mu"], a.p["sigma"], a.p["sigmin"]
    tries = a.p["tries"]
    z0 = [a.pick(0, 18) for _ in range(tries)]
    ok = [a.int(0, 1) for _ in range(tries - 1)] + [1]
    bases, bers = [], []
    src = Bytes(a)

    def basesampler(randombytes=None):
        a.check(randombytes is src, "the given randomness is used")
        bases.append(len(src.out))
        return z0[len(bases) - 1]

    def berexp(x, ccs, randombytes=None):
        a.check(randombytes is src, "the given randomness is used")
        bers.append((x, ccs, len(src.out)))
        return ok[len(bers) - 1] == 1
    a.patch(m, "basesampler", basesampler)
    a.patch(m, "berexp", berexp)
    r = m.samplerz(mu, sigma, sigmin, randombytes=src)
    i = len(bers) - 1
    a.check(len(bases) == i + 1 and len(src.out) == i + 1, "each attempt draws a base sample and a sign byte")
    a.check(a.andc(ok[i] == 1, *[o == 0 for o in ok[:i]]), "the first accepted candidate is used")
    fl = int(floor(mu))
    fr = mu - fl
    z = None
    for j in range(i + 1):
        bit = src.out[j] % 2
        z = a.ite(bit == 1, z0[j] + 1, -z0[j])
        x, ccs, _ = bers[j]
        a.check(ccs == sigmin / sigma, "the scaling factor is sigmin/sigma")
        w1 = (z0[j] + 1 - fr) ** 2 / (2 * sigma * sigma) - z0[j] ** 2 * INV
        w0 = (-z0[j] - fr) ** 2 / (2 * sigma * sigma) - z0[j] ** 2 * INV
        # x is a float by now, so the sign is decided on this path
        w = w1 if a.cond(bit == 1) else w0
        a.check(abs(x - w) < 1e-9, "candidates are accepted with the ratio of the two Gaussians")
    a.check(r == z + fl, "the sample is the candidate shifted by the integer part of the centre")
    if tries > 1:
        a.wit("later", i > 0)
    a.wit("positive", z > 0)


def mkg(a):
    m = a.load("mkgauss")
    logn = a.p["logn"]
    src = Bytes(a)
    r = m.mkgauss(src, logn)
    g = 1 << (10 - logn)
    a.check(src.calls == [8] * (2 * g), "two 64-bit draws for each of the 2^(10-logn) samples")
    t = 0
    for i in range(g):
        x, y = a.frombytes(src.out[16 * i:16 * i + 8]), a.frombytes(src.out[16 * i + 8:16 * i + 16])
        neg = x >> 63
        x, y = x % (1 << 63), y % (1 << 63)
        v = len(CDT) - 1
        for k in range(len(CDT) - 1, 0, -1):
            v = a.ite(y >= CDT[k], k, v)
        v = a.ite(x < CDT[0], 0, v)
        t = t + a.ite(neg == 1, -v, v)
    a.check(r == t, "the sum of table-driven signed samples")
    a.wit("extreme", t == -26)
    a.wit("zero", t == 0)
    a.wit("one", t == 1)


def small(a):
    """the polynomial: in range, and with an odd coefficient sum"""
    m = a.load("mkgauss")
    n, extra, lim = a.p["n"], a.p["extra"], a.p["lim"]
    vals = [a.int(-lim, lim) for _ in range(n + extra)]
    used = []

    def mkgauss(rng, logn):
        a.check(rng is tag and logn == a.p["logn"], "samples come from the given source and degree")
        i = len(used)
        used.append(i)
        return vals[i] if i < len(vals) else (1 if i % 2 else 2)
    tag = object()
    a.patch(m, "mkgauss", mkgauss)
    f = m.poly_small_mkgauss(tag, n, a.p["logn"])
    seq = vals + [1 if i % 2 else 2 for i in range(len(vals), len(used))]
    out, par = [], 0
    for i in range(len(used)):
        v = seq[i]
        if a.cond(a.orc(v < -127, v > 127)):
            continue
        if len(out) == n - 1 and a.cond((par + v) % 2 == 0):
            continue
        out.append(v)
        par = par + v
        if len(out) == n:
            a.check(i == len(used) - 1, "no sample is drawn after the last coefficient")
            break
    a.check(len(f) == n and len(out) == n and a.alleq(f, out), "coefficients are the samples in order, those out of range or of wrong parity redrawn")
    a.check(a.andc(*[a.andc(c >= -127, c <= 127) for c in f]), "coefficients are within -127..127")
    a.check(sum(f) % 2 == 1, "the sum of the coefficients is odd")
    a.wit("done")
    if extra:
        a.wit("redrawn", len(used) > n)
