"""Key codecs of the Python code: falcon_codec.py, falcon.PublicKey.from_bytes, scripts/generate_kat_rsp.py."""
Q = 12289


def setup(a):
    import h_h2p
    return h_h2p.setup(a)


def bits_of(x):
    out = []
    for b in x:
        out += [(b >> (7 - i)) & 1 for i in range(8)]
    return out


def groups(a, data, n, w):
    """n big-endian groups of w bits, and the bits left in the last byte used"""
    bits = bits_of(data)
    v = []
    for i in range(n):
        s = 0
        for b in bits[i * w:(i + 1) * w]:
            s = (s << 1) | b
        v.append(s)
    return v, bits[n * w:((n * w + 7) // 8) * 8]


def pack(vals, w):
    """the bytes of big-endian groups of w bits, zero padded (vals >= 0)"""
    bits = []
    for v in vals:
        bits += [(v >> (w - 1 - i)) & 1 for i in range(w)]
    bits += [0] * (-len(bits) % 8)
    out = []
    for i in range(0, len(bits), 8):
        s = 0
        for b in bits[i:i + 8]:
            s = (s << 1) | b
        out.append(s)
    return out


def fixed(i, n, q):
    return (i * 7919 + 13) % q


def window(a, n, at, k, lo, hi, f):
    return [a.int(lo, hi) if at <= i < at + k else f(i) for i in range(n)]


def modq(a):
    setup(a)
    C = a.load("falcon_codec")
    n, at, k = a.p["n"], a.p.get("at", 0), a.p["k"]
    x = window(a, n, at, k, -3, 16390, lambda i: fixed(i, n, Q))
    bad = a.orc(*[a.orc(v < 0, v >= Q) for v in x])
    r, e = a.attempt(lambda: C.modq_encode(list(x), n), ValueError)
    if e is not None:
        a.check(bad, "an in-range vector is encoded")
        a.wit("refused")
        return
    a.check(a.notc(bad), "a coefficient outside [0, q-1] is refused")
    a.check(len(r) == (14 * n + 7) // 8, "14 bits per coefficient")
    a.check(a.alleq(r, pack(x, 14)), "big-endian 14-bit groups, zero padded")
    d, e = a.attempt(lambda: C.modq_decode(r, n), ValueError)
    a.check(e is None and a.alleq(d, x), "decoding inverts encoding")
    a.wit("encoded")


def modq_dec(a):
    setup(a)
    C = a.load("falcon_codec")
    n, L = a.p["n"], a.p["len"]
    need = (14 * n + 7) // 8
    if "k" in a.p:
        base = pack([fixed(i, n, Q) for i in range(n)], 14)
        base += [0xa5] * (L - len(base))
        data = a.mkbytes([a.byte() if a.p["at"] <= i < a.p["at"] + a.p["k"] else base[i] for i in range(L)])
    else:
        data = a.bytes(L)
    r, e = a.attempt(lambda: C.modq_decode(data, n), ValueError)
    if L < need:
        a.check(e is not None, "a short input is refused")
        a.wit("short")
        return
    v, rest = groups(a, list(data)[:need], n, 14)
    good = a.andc(*([c < Q for c in v] + [b == 0 for b in rest]))
    if e is not None:
        a.check(a.notc(good), "a canonical encoding is decoded")
        a.wit("refused")
        return
    a.check(good, "a coefficient >= q or a non-zero spare bit is refused")
    a.check(len(r) == n and a.alleq(r, v), "the coefficients are the 14-bit groups")
    a.wit("decoded")


def trim(a):
    setup(a)
    C = a.load("falcon_codec")
    n, at, k, w = a.p["n"], a.p.get("at", 0), a.p["k"], a.p["w"]
    m = (1 << (w - 1)) - 1
    x = window(a, n, at, k, -m - 4, m + 4, lambda i: fixed(i, n, 2 * m + 1) - m)
    bad = a.orc(*[a.orc(v < -m, v > m) for v in x])
    r, e = a.attempt(lambda: C.trim_i8_encode(list(x), n, w), ValueError)
    if e is not None:
        a.check(bad, "an in-range vector is encoded")
        a.wit("refused")
        return
    a.check(a.notc(bad), "a coefficient outside the range is refused")
    a.check(a.alleq(r, pack([a.ite(v < 0, v + (1 << w), v) for v in x], w)), "big-endian groups in two's complement, zero padded")
    d, e = a.attempt(lambda: C.trim_i8_decode(r, n, w), ValueError)
    a.check(e is None and len(d) == n and a.alleq(d, x), "decoding inverts encoding")
    a.wit("encoded")


def trim_dec(a):
    setup(a)
    C = a.load("falcon_codec")
    n, L, w = a.p["n"], a.p["len"], a.p["w"]
    need = (w * n + 7) // 8
    data = a.bytes(L)
    r, e = a.attempt(lambda: C.trim_i8_decode(data, n, w), ValueError)
    if L < need:
        a.check(e is not None, "a short input is refused")
        a.wit("short")
        return
    v, rest = groups(a, list(data)[:need], n, w)
    good = a.andc(*([c != 1 << (w - 1) for c in v] + [b == 0 for b in rest]))
    if e is not None:
        a.check(a.notc(good), "a canonical encoding is decoded")
        a.wit("refused")
        return
    a.check(good, "the value -2^(w-1) or a non-zero spare bit is refused")
    a.check(len(r) == n and a.alleq(r, [a.ite(c >= 1 << (w - 1), c - (1 << w), c) for c in v]), "the coefficients are the sign-extended groups")
    a.wit("decoded")


def from_bytes(a):
    F = setup(a)
    n = a.p["n"]
    L, at, k = a.p["len"], a.p["at"], a.p["k"]
    base = pack([fixed(i, n, Q) for i in range(n)], 14)
    base = (base + [0x11] * L)[:max(L - 1, 0)]
    hd = a.byte() if a.p.get("hdr") else 9 if n == 512 else 10
    data = a.mkbytes(([hd] + [a.byte() if at <= i < at + k else base[i] for i in range(L - 1)])[:L])
    r, e = a.attempt(lambda: F.PublicKey.from_bytes(data), ValueError)
    if L == 0:
        a.check(e is not None, "an empty key is refused")
        a.wit("empty")
        return
    h512, h1024 = hd == 9, hd == 10
    if a.cond(a.notc(a.orc(a.andc(h512, L == 897), a.andc(h1024, L == 1793)))):
        a.check(e is not None, "a key whose header and length do not match a parameter set is refused")
        a.wit("framing")
        return
    v, rest = groups(a, list(data)[1:], 512 if L == 897 else 1024, 14)
    good = a.andc(*[c < Q for c in v[max(at * 8 // 14 - 1, 0):(at + k) * 8 // 14 + 1]])
    if e is not None:
        a.check(a.notc(good), "an honest key is accepted")
        a.wit("refused")
        return
    a.check(good, "a coefficient >= q is refused")
    a.check(r.n == len(v) and a.alleq(r.pk, v), "the key holds the 14-bit groups")
    a.check(r.signature_bound == F.Params[r.n]["sig_bound"], "the parameters are those of its degree")
    a.wit("accepted")


def complete(a):
    setup(a)
    C = a.load("falcon_codec")
    n = a.p["n"]
    f, g, F = [a.ints(n, -100, 100) for _ in range(3)]
    r = C.complete_private(f, g, F, n)
    # the same ring, used directly: G f = g F (+ q = 0 mod q)
    P = a.once("poly", None)["polyntt.poly"].Poly
    e = P(g, Q) * P(F, Q) / P(f, Q)
    c = e.coeffs
    a.check(len(r) == n and a.alleq(r, [a.ite(2 * x > Q, x - Q, x) for x in c]), "G = gF/f modulo q, centred")
    a.check(all(isinstance(x, int) for x in r) if not a.sym else True, "integers")
    a.wit("done")


def kat_pk(a):
    """encode_public_key, then PublicKey.from_bytes"""
    F = setup(a)
    K = a.load("scripts.generate_kat_rsp")
    at, k = a.p["at"], a.p["k"]
    h = [a.int(-Q, 2 * Q) if at <= i < at + k else fixed(i, 512, Q) for i in range(512)]
    r = K.encode_public_key(list(h), 512)
    hq = [x % Q for x in h]
    a.check(len(r) == 897 and r[0] == 9, "a 897-byte key with header 0x09")
    a.check(a.alleq(list(r)[1:], pack(hq, 14)), "14 bits per coefficient, big-endian")
    pk, e = a.attempt(lambda: F.PublicKey.from_bytes(r), ValueError)
    a.check(e is None and a.alleq(pk.pk, hq), "reading the key back gives the polynomial")
    a.wit("done")


def kat_sk(a):
    """decode_secret_key_nist reads f, g, F at their places and completes the key"""
    setup(a)
    K = a.load("scripts.generate_kat_rsp")
    C = a.load("falcon_codec")
    logn = a.p["logn"]
    n = 1 << logn
    w1 = {1: 8, 2: 8, 3: 8, 4: 8, 5: 8, 6: 7, 7: 7, 8: 6, 9: 6, 10: 5}[logn]
    log = []

    def compl(f, g, F, n):
        log.append((list(f), list(g), list(F), n))
        return ["G"]
    a.patch(K, "complete_private", compl)
    vs = []
    for w in (w1, w1, 8):
        m = (1 << (w - 1)) - 1
        at = a.p.get("at", 0)
        vs.append(window(a, n, at, a.p["k"], -m, m, lambda i: fixed(i, n, 2 * m + 1) - m))
    hd = a.int(0, 255) if a.p.get("hdr") else 0x50 + logn
    data = [hd]
    for v, w in zip(vs, (w1, w1, 8)):
        data += pack([a.ite(c < 0, c + (1 << w), c) if not isinstance(c, int) else c % (1 << w) for c in v], w)
    hx = a.mkbytes(data).hex()
    r, e = a.attempt(lambda: K.decode_secret_key_nist(hx, n), ValueError)
    if a.cond(a.notc(hd == 0x50 + logn)):
        a.check(e is not None, "a header of another degree is refused")
        a.wit("header")
        return
    a.check(e is None, "an honest key is decoded")
    f, g, F, G = r
    a.check(a.andc(a.alleq(f, vs[0]), a.alleq(g, vs[1]), a.alleq(F, vs[2])), "f, g and F are the encoded polynomials")
    a.check(G == ["G"] and len(log) == 1 and a.alleq(log[0][0], f) and a.alleq(log[0][1], g) and a.alleq(log[0][2], F) and log[0][3] == n, "G completes them")
    a.wit("done")
