"""falcon.py / falcon_recovery.py / falcon_epervier.py: verification and recovery predicates, what signing emits."""
Q = 12289


def setup(a, mod="falcon"):
    import h_h2p
    F = h_h2p.setup(a)
    M = a.load(mod) if mod != "falcon" else F
    return F, M


def polys(a):
    st = a.once("poly", None)
    return st["polyntt.poly"].Poly, st["polyntt.ntt_iterative"].NTTIterative


def cent(a, v):
    return [a.ite(2 * x > Q, x - Q, x) for x in v]


def sq(a, *vs):
    t = 0
    for v in vs:
        for c in v:
            t = t + c * c
    return t


def boundary(n):
    return {2: 101498, 4: 208714, 8: 428865, 16: 892039, 32: 1852696, 64: 3842630, 128: 7959734, 256: 16468416, 512: 34034726, 1024: 70265242}[n]


def siglen(n):
    return {2: 44, 4: 47, 8: 52, 16: 63, 32: 82, 64: 122, 128: 200, 256: 356, 512: 666, 1024: 1280}[n]


class Hash:
    """hash_to_point stub: free residues, arguments recorded"""

    def __init__(self, a, n, fixed=None):
        self.a, self.calls = a, []
        self.out = fixed or a.ints(n, 0, Q - 1)

    def __call__(self, n, message, salt, xof="default"):
        self.calls.append((n, message, salt, xof))
        return list(self.out)

    def ok(self, n, message, salt, xof):
        a = self.a
        return len(self.calls) == 1 and self.calls[0][0] == n and a.andc(a.alleq(list(self.calls[0][1]), list(message)), a.alleq(list(self.calls[0][2]), list(salt))) \
            and (self.calls[0][3] is xof or isinstance(self.calls[0][3], xof))


def coeffs(a, n, m):
    """n coefficients: a window of free ones in fixed ones"""
    at, k = a.p.get("at", 0), a.p.get("k", n)
    return [a.int(-m, m) if at <= i < at + k or (n > a.p["n"] and at <= i - a.p["n"] < at + k) else (i * 37) % 241 - 120 for i in range(n)]


def fixprod(a, n):
    """products of polynomials: free only in the window (the others are fixed residues)"""
    import polystub
    st = a.once("poly", None)
    at, k = a.p.get("at", 0), a.p.get("k", n)

    def free(R, m):
        return [a.int(0, Q - 1) if at <= i < at + k else (i * 37 + 5) % 250 for i in range(m)]
    st["polyntt"].hook(free if k < n else None)


def verify(a):
    F, M = setup(a)
    n, real = a.p["n"], a.p.get("real")
    fixprod(a, n)
    at, k = a.p.get("at", 0), a.p.get("k", n)
    H = Hash(a, n, [a.int(0, Q - 1) if at <= i < at + k else (i * 11) % 300 for i in range(n)])
    a.patch(F, "hash_to_point", H)
    pk = [a.int(0, Q - 1) if at <= i < at + k else (i * 101) % Q for i in range(n)]
    P = F.PublicKey(n, pk)
    salt, msg, hd = a.bytes(40), a.bytes(a.p.get("msg", 3)), a.byte()
    if real:
        body = a.bytes(real)
        sig = a.mkbytes([hd]) + salt + body
        s1 = F.decompress(body, siglen(n) - 41, n)
    else:
        body = a.bytes(2)
        sig = a.mkbytes([hd]) + salt + body
        s1 = coeffs(a, n, 2047) if a.cond(a.int(0, 1) == 1) and a.int(0, 1) == 1 else False
        log = []

        def dec(x, slen, m):
            log.append((x, slen, m))
            return s1 if s1 is False else list(s1)
        a.patch(F, "decompress", dec)
    X = F.KeccakPRNG if a.p.get("xof", "KeccakPRNG") == "KeccakPRNG" else getattr(F, a.p["xof"])
    r = P.verify(msg, sig) if a.p.get("dflt") else P.verify(msg, sig, xof=X)
    if s1 is False:
        a.check(r is False, "an invalid encoding is refused")
        a.wit("encoding")
        return
    if not real:
        a.check(len(log) == 1 and a.alleq(list(log[0][0]), list(body)) and log[0][1] == siglen(n) - 41 and log[0][2] == n, "the part after the salt is decoded")
    Poly, _ = polys(a)
    s0 = cent(a, (Poly(list(H.out), Q) - Poly(list(s1), Q) * Poly(list(pk), Q)).coeffs)
    short = sq(a, s0, s1) <= boundary(n)
    a.check(H.ok(n, msg, salt, X), "the message is hashed with the salt of the signature")
    a.check(r is True or r is False, "the answer is a truth value")
    if r is True:
        a.check(short, "an accepted signature is short")
    else:
        a.check(a.notc(short), "a short signature is accepted")
    a.wit("accepted" if r is True else "too long")


def recover(a):
    mod = a.p["mod"]
    F, E = setup(a, mod)
    n, real = a.p["n"], a.p.get("real")
    Hs = Hash(a, n)
    a.patch(E, "hash_to_point", Hs)
    cls = E.EpervierPublicKey if mod.endswith("epervier") else E.RecoveryModePublicKey
    addr = a.int(0, (1 << 160) - 1)
    P = cls(n, addr)
    salt, msg, hd = a.bytes(40), a.bytes(3), a.byte()
    hint = a.bytes(3 * n)
    body = a.bytes(real or 2)
    sig = a.mkbytes([hd]) + salt + body + hint
    if real:
        s = F.decompress(body, 2 * siglen(n) - 41, 2 * n)
    else:
        s = coeffs(a, 2 * n, a.p.get("m", 2047)) if a.int(0, 1) == 1 else False
        log = []

        def dec(x, slen, m):
            log.append((x, slen, m))
            return s if s is False else list(s)
        a.patch(E, "decompress", dec)
    K = keccak(a)
    if a.p.get("verify"):
        rec = a.int(0, (1 << 160) - 1) if a.int(0, 1) == 1 else False
        a.patch(cls, "recover", lambda self, message, signature, *x, **k: rec)
        r = bool(P.verify(msg, sig))
        if rec is False:
            a.check(r is False, "a signature from which no key is recovered is refused")
            a.wit("refused")
        elif r is True:
            a.check(rec == addr, "accepted only for the address of the recovered key")
            a.wit("accepted")
        else:
            a.check(a.notc(rec == addr), "accepted for the address of the recovered key")
        return
    r = P.recover(msg, sig)
    if s is False:
        a.check(r is False, "an invalid encoding is refused")
        a.wit("encoding")
        return
    if not real:
        a.check(len(log) == 1 and a.alleq(list(log[0][0]), list(body)) and log[0][1] == 2 * siglen(n) - 41 and log[0][2] == 2 * n, "the two halves are decoded from the part after the salt")
    s0, s1 = s[:n], s[n:]
    Poly, NTT = polys(a)
    S = Poly(list(s1), Q).ntt()
    hb = list(hint)
    hv = [hb[3 * i] * 65536 + hb[3 * i + 1] * 256 + hb[3 * i + 2] for i in range(n)]
    good = a.andc(*([v < Q for v in hv] + [v * x % Q == 1 for v, x in zip(hv, S)] + [sq(a, s) <= boundary(n)]))
    if r is False:
        a.check(a.notc(good), "a short signature with the right hint is accepted")
        a.wit("refused")
        return
    a.check(good, "accepted only if the hint is the inverse, reduced, and the signature short")
    a.check(Hs.ok(n, msg, salt, F.KeccakPRNG), "the message is hashed with the salt of the signature")
    d = (Poly(list(Hs.out), Q) - Poly(list(s0), Q)).ntt()
    T = NTT(Q)
    h = T.vec_mul(d, hv)
    if not mod.endswith("epervier"):
        h = T.intt(h)
    exp = K(h)
    a.check(r == exp, "the address of h = (c - s0)/s1")
    a.wit("recovered")


def keccak(a):
    """patches the permutation by an unknown function; returns address(list of residues)"""
    import h_keccak
    KM = a.load("keccak")
    perm = h_keccak.perm_of(a, KM)
    if a.sym:
        import pystubs

        def F1600(self):
            b = perm(pystubs.elems(self.state.view(pystubs.uint8).tobytes()))
            self.state[:] = [pystubs.SInt.from_bytes(pystubs.mkbytes(b[8 * i:8 * i + 8]), "little") for i in range(25)]
        a.patch(KM.Keccak, "F1600", F1600)

    def addr(h):
        data = []
        for v in h:
            data += [0] * 30 + [v >> 8, v & 255]
        out = h_keccak.Sponge(a, data, 136, 1, perm).squeeze(32)
        t = 0
        for b in out[-20:]:
            t = t * 256 + b
        return t
    return addr


class Stream:
    """free bytes handed out in order"""

    def __init__(self, a, n):
        self.a, self.b, self.i, self.reads = a, list(a.bytes(n)), 0, []

    def __call__(self, k):
        r = self.b[self.i:self.i + k]
        if len(r) < k:
            raise Exception("stream exhausted")
        self.i += k
        self.reads.append(k)
        return self.a.mkbytes(r)


def newkey(a, F, M, mod, n):
    cls = {"falcon": "SecretKey", "falcon_epervier": "EpervierSecretKey", "falcon_recovery": "RecoveryModeSecretKey"}[mod]
    C = getattr(M, cls)
    f = [3] + [0] * (n - 1)
    g = [5, 1] + [0] * (n - 2)
    G = [7] + [2] * (n - 1)
    FF = [-4] + [1] * (n - 1)
    k = C(n, [f, g, FF, G])
    return k


def sign(a):
    mod = a.p["mod"]
    F, M = setup(a, mod)
    n = a.p["n"]
    epi = mod != "falcon"
    fixprod(a, n)
    keccak(a)
    H = Hash(a, n, [(i * 11) % 300 for i in range(n)])
    a.patch(F, "hash_to_point", H)
    if epi:
        a.patch(M, "hash_to_point", H)
    key = newkey(a, F, M, mod, n)
    Poly, NTT = polys(a)
    # the samples: a free one, a free one again, then a short constant one
    small = [1] + [0] * (n - 1)
    tries = a.p.get("tries", 1)
    samples = [(coeffs(a, n, a.p["m"]), coeffs(a, n, a.p["m"])) for _ in range(tries)]
    samples.append(([2] * n, small))
    if epi:
        a.assume(a.andc(*[c % Q != 0 for c in Poly(list(small), Q).ntt()]))
    calls, comp = [], []
    user = a.p["rand"] != "urandom"
    st = Stream(a, 40 + 48 * (tries + 1))
    rb = st
    ur = Stream(a, 40)
    for m in {F, M}:
        a.patch(m, "urandom", ur)
    if not user:
        rb = ur
    encs = []

    def samp(point, how):
        i = len(calls)
        calls.append((list(point), how))
        if i >= len(samples):
            raise Exception("more samples than provided")
        return [list(samples[i][0]), list(samples[i][1])]

    def sample_preimage(self, point, seed=None):
        return samp(point, ("plain", seed))

    def with_prng(self, point, randombytes_func):
        return samp(point, ("prng", randombytes_func))
    a.patch(F.SecretKey, "sample_preimage", sample_preimage)
    a.patch(F.SecretKey, "sample_preimage_with_prng", with_prng)
    if not a.p.get("realcomp"):
        oks = [a.int(0, 1) for _ in range(tries)]
        body = a.bytes(3)

        def compress(v, slen):
            comp.append((list(v), slen, len(calls) - 1))
            i = len(calls) - 1
            if i < tries and oks[i] == 0:
                return False
            return body
        for m in {F, M}:
            a.patch(m, "compress", compress)
    shakes, chachas = [], []

    class Shake:
        def __init__(self, seed):
            self.seed, self.state, self.st = seed, "in", Stream(a, 56 * (tries + 1))
            shakes.append(self)

        @classmethod
        def new(cls, data=b""):
            return cls(data)

        def flip(self):
            self.state = "out"

        def read(self, k):
            a.check(self.state == "out", "SHAKE is finalised before reading")
            return self.st(k)

    class Cha:
        def __init__(self, src):
            self.src = src
            chachas.append(self)

        def randombytes(self, k):
            raise Exception("not used here")
    if not epi:
        a.patch(F, "SHAKE", Shake)
        a.patch(F, "ChaCha20", Cha)
    msg = a.bytes(3)
    sig = key.sign(msg, randombytes=rb) if user else key.sign(msg, randombytes=ur)
    # -- which sample has to come out
    k = None
    for i, (x, y) in enumerate(samples):
        short = sq(a, x, y) <= boundary(n)
        inv = a.andc(*[c % Q != 0 for c in Poly(list(y), Q).ntt()]) if epi else True
        if not (a.cond(short) and a.cond(inv)):
            continue
        slen = (2 if epi else 1) * siglen(n) - 41
        if a.p.get("realcomp"):
            e = F.compress((list(x) + list(y)) if epi else list(y), slen)
            if e is False:
                continue
        else:
            if i < tries and oks[i] == 0:
                continue
            e = body
        k = i
        break
    a.check(k is not None and len(calls) == k + 1, "the first sample that is short, invertible and encodable is used")
    salt = a.mkbytes((ur if not user else st).b[:40])
    a.check(H.ok(n, msg, salt, F.KeccakPRNG), "the message is hashed once, with the salt")
    a.check(all(a.cond(a.alleq(c[0], H.out)) for c in calls), "preimages of the hashed message are sampled")
    exp = [(0x30 if epi else 0x20) + {2: 1, 4: 2, 8: 3, 512: 9}[n]] + list(salt) + list(e)
    if epi:
        for v in Poly(list(samples[k][1]), Q).inverse().ntt():
            exp += [0, v >> 8, v & 255]
    a.check(a.alleq(list(sig), exp), "header, salt, encoding" + (", inverse" if epi else ""))
    if not a.p.get("realcomp"):
        x, y = samples[k]
        a.check(len(comp) >= 1 and comp[-1][2] == k and comp[-1][1] == slen and a.alleq(comp[-1][0], (list(x) + list(y)) if epi else list(y)), "the sample is what is encoded")
    # -- randomness
    if not user:
        a.check(all(c[1] == ("plain", None) for c in calls), "operating-system randomness is used")
    elif epi:
        sd = [st.b[40 + 48 * i:88 + 48 * i] for i in range(len(calls))]
        a.check(all(c[1][0] == "plain" and c[1][1] is not None and a.cond(a.alleq(list(c[1][1]), d)) for c, d in zip(calls, sd)), "every attempt has a fresh seed")
    else:
        a.check(len(shakes) == 1 and a.alleq(list(shakes[0].seed), st.b[40:88]), "one 48-byte seed is expanded")
        good = len(chachas) == len(calls)
        for i, c in enumerate(calls):
            good = good and c[1][0] == "prng" and getattr(c[1][1], "__self__", None) is chachas[i] and c[1][1].__name__ == "randombytes"
        a.check(good and all(a.cond(a.alleq(list(ch.src), shakes[0].st.b[56 * i:56 * i + 56])) for i, ch in enumerate(chachas)), "attempt i is driven by the i-th 56-byte seed")
    a.wit("sample %d" % k)


def keyaddr(a):
    """the address held by a recovery-mode secret key is that of its public key"""
    mod = a.p["mod"]
    F, M = setup(a, mod)
    n = a.p["n"]
    K = keccak(a)
    key = newkey(a, F, M, mod, n)
    Poly, NTT = polys(a)
    h = (Poly(key.g, Q) / Poly(key.f, Q)).coeffs
    a.check(a.alleq(list(key.h), h), "h = g/f")
    if mod.endswith("epervier"):
        h = NTT(Q).ntt(h)
    a.check(key.pk == K(h), "the address is the hash of the key's words")
    a.wit("done")
