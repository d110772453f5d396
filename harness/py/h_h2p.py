"""falcon.hash_to_point (and PublicKey / SecretKey use of it) = rejection sampling of 16-bit big-endian groups below 5q."""
Q = 12289


def setup(a):
    import polystub
    if a.sym:
        import pystubs
        a.stubs({"numpy": pystubs.numpy()})
        a.stubs(pystubs.crypto(a))
        a.stubs(pystubs.hashlib_stub(a))
        a.stubs(pystubs.eth_abi())
    st = a.once("poly", lambda: polystub.make(a))
    st["polyntt"].reset()
    a.stubs(st)
    return a.load("falcon")


def h2p(a):
    F = setup(a)
    n, draws, at = a.p["n"], a.p["draws"], a.p.get("at", 0)
    # the stream of 16-bit draws: fixed small values, except a window of free bytes
    words = []
    for i in range(n + draws):
        if at <= i < at + draws:
            words.append((a.byte(), a.byte()))
        else:
            words.append(((i * 7) % 200, (i * 13 + 5) % 256))
    for _ in range(draws):
        words.append((1, 2))
    log = []

    class Xof:
        def __init__(self):
            self.i = 0

        @classmethod
        def new(cls):
            log.append("new")
            return cls()

        def update(self, d):
            log.append(("update", d))

        def flip(self):
            log.append("flip")

        def read(self, k):
            out = []
            for j in range(k):
                out.append(words[self.i >> 1][self.i & 1])
                self.i += 1
            return a.mkbytes(out)
    salt, msg = a.bytes(a.p.get("salt", 2)), a.bytes(a.p.get("msg", 3))
    r = F.hash_to_point(n, msg, salt, xof=Xof)
    exp = []
    for hi, lo in words:
        if len(exp) == n:
            break
        v = hi * 256 + lo
        if v < 5 * Q:
            exp.append(v % Q)
    a.check(len(r) == n and a.alleq(r, exp), "the accepted 16-bit groups below 5q, reduced modulo q, in order")
    ups = [x[1] for x in log if isinstance(x, tuple)]
    fed = [b for u in ups for b in u]
    a.check(len(fed) == len(salt) + len(msg) and a.alleq(fed, list(salt) + list(msg)), "the salt then the message are absorbed")
    a.check(log[-1] == "flip" and log.count("flip") == 1, "the input is finalised once, before reading")
    a.wit("done")


def h2p_xof(a):
    """with the real XOF classes, hash functions unknown"""
    import h_prng as prng
    F = setup(a)
    kind = a.p["xof"]
    X = getattr(F, kind)
    salt, msg = a.bytes(40), a.bytes(a.p["msg"])
    n = a.p["n"]
    H = prng.hasher(a, "blake2s" if "Blake" in kind else "keccak")
    if kind == "Blake2sPRNG":
        st = prng.Stream(H, H(list(salt)) + list(msg), False)
    elif kind == "KeccakPRNG":
        st = prng.Stream(H, list(salt) + list(msg), False)
    else:
        import h_keccak as keccak
        K = a.load("keccak")
        perm = keccak.perm_of(a, K)
        if a.sym:
            import pystubs

            def F1600(self):
                b = perm(pystubs.elems(self.state.view(pystubs.uint8).tobytes()))
                self.state[:] = [pystubs.SInt.from_bytes(pystubs.mkbytes(b[8 * i:8 * i + 8]), "little") for i in range(25)]
            a.patch(K.Keccak, "F1600", F1600)
        sp = keccak.Sponge(a, list(salt) + list(msg), 136, 0x1f, perm)

        class St:
            read = staticmethod(sp.squeeze)
        st = St
    exp, k = [], 0
    while len(exp) < n:
        hi, lo = st.read(2)
        v = hi * 256 + lo
        if a.sym and k >= a.p["draws"]:
            a.assume(v < 5 * Q)
        k += 1
        if v < 5 * Q:
            exp.append(v % Q)
    r = F.hash_to_point(n, msg, salt, xof=X) if a.p.get("cls", 1) else F.hash_to_point(n, msg, salt, xof=X.new())
    a.check(a.alleq(r, exp), "hash to point over the documented stream")
    a.wit("done")
