"""drbg/aes256_ctr_drbg.py = CTR_DRBG with AES-256, no derivation function (NIST SP 800-90A 10.2.1)."""


def aes(a):
    def real(d):
        from Crypto.Cipher import AES
        d = bytes(d)
        return AES.new(d[:32], AES.MODE_ECB).encrypt(d[32:])
    return lambda k, b: list(a.uf("aes32", a.mkbytes(list(k) + list(b)), 16, real))


class Spec:
    def __init__(self, a, E, seed, pers):
        self.a, self.E = a, E
        self.K, self.V = [0] * 32, [0] * 16
        self.update([x ^ y for x, y in zip(seed, pers + [0] * (48 - len(pers)))])

    def inc(self):
        self.V = self.a.tobytes((self.a.frombytes(self.V, "big") + 1) % (1 << 128), 16, "big")

    def update(self, data):
        t = []
        for _ in range(3):
            self.inc()
            t += self.E(self.K, self.V)
        t = [x ^ y for x, y in zip(t, data)]
        self.K, self.V = t[:32], t[32:]

    def gen(self, n, add):
        if add is None:
            add = [0] * 48
        else:
            add = add + [0] * (48 - len(add))
            self.update(add)
        t = []
        while len(t) < n:
            self.inc()
            t += self.E(self.K, self.V)
        self.update(add)
        return t[:n]


def load(a):
    if a.sym:
        import pystubs
        a.stubs(pystubs.crypto(a))
    return a.load("drbg.aes256_ctr_drbg")


def drbg(a):
    m = load(a)
    E = aes(a)
    ns, np = a.pick(*a.p["seed"]), a.pick(*a.p["pers"])
    seed, pers = a.bytes(ns), a.bytes(np)
    if a.p.get("urandom"):
        asked = []

        def urandom(n):
            asked.append(n)
            return seed
        a.patch(m.os, "urandom", urandom)
        try:
            d, e = a.attempt(lambda: m.AES256_CTR_DRBG(personalization=pers), ValueError)
        finally:
            a.unpatch()
        a.check(asked == [48], "48 bytes of entropy are drawn when no seed is given")
    else:
        d, e = a.attempt(lambda: m.AES256_CTR_DRBG(seed, pers), ValueError)
    if ns != 48 or np > 48:
        a.check(e is not None, "a seed that is not 48 bytes or a personalisation beyond 48 bytes is refused")
        a.wit("refused")
        return
    a.check(e is None, "a 48-byte seed and a personalisation of at most 48 bytes are accepted")
    if e is not None:
        return
    sp = Spec(a, E, list(seed), list(pers))
    for lo, hi, alo, ahi in a.p["reqs"]:
        n, k = a.pick(lo, hi), a.pick(alo, ahi)
        add = None if k < 0 else a.bytes(k)
        r, e = a.attempt(lambda: d.random_bytes(n) if add is None else d.random_bytes(n, add), ValueError)
        if k > 48:
            a.check(e is not None, "additional input beyond 48 bytes is refused")
            a.wit("additional refused")
            continue
        a.check(e is None, "a request within the limits is served")
        if e is not None:
            return
        a.check(len(r) == n and a.alleq(r, sp.gen(n, None if add is None else list(add))), "the output is that of CTR_DRBG")
    a.wit("done")


def limit(a):
    m = load(a)
    d = m.AES256_CTR_DRBG(bytes(range(48)))
    if not hasattr(d, "reseed_ctr"):
        return
    c = a.int(1, (1 << 49))
    d.reseed_ctr = c
    r, e = a.attempt(lambda: d.random_bytes(5), Exception, Warning)
    a.check(a.ite(c > (1 << 48), e is not None, True), "no output after 2^48 requests")
    a.check(a.ite(c < (1 << 48), e is None, True), "output before 2^48 requests")
    if e is None:
        a.check(d.reseed_ctr == c + 1, "requests are counted")
        a.wit("served")
    else:
        a.wit("exhausted")
