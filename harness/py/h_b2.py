"""blake2s/blake2s.py: compression function (RFC 7693) and hashing of field elements."""
M = 0xffffffff
P = 2 ** 251 + 17 * 2 ** 192 + 1
IV = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
SIGMA = ["0123456789ABCDEF", "EA489FD61C02B753", "B8C052FDAE367194", "7931DCBE265A40F8", "905724AFE1BC683D",
         "2C6A0B834D75FE19", "C51FED4A0763928B", "DB7EC13950F4862A", "6FE9B308C2D714A5", "A2847615FB9E3CD0"]


def ror(x, n):
    return ((x >> n) | (x << (32 - n))) & M


def G(v, a, b, c, d, x, y):
    v[a] = (v[a] + v[b] + x) & M
    v[d] = ror(v[d] ^ v[a], 16)
    v[c] = (v[c] + v[d]) & M
    v[b] = ror(v[b] ^ v[c], 12)
    v[a] = (v[a] + v[b] + y) & M
    v[d] = ror(v[d] ^ v[a], 8)
    v[c] = (v[c] + v[d]) & M
    v[b] = ror(v[b] ^ v[c], 7)


def compress(h, m, t0, t1, f0, f1):
    v = list(h) + IV[:4] + [IV[4] ^ t0, IV[5] ^ t1, IV[6] ^ f0, IV[7] ^ f1]
    for r in range(10):
        s = [int(c, 16) for c in SIGMA[r]]
        for i in range(4):
            G(v, i, 4 + i, 8 + i, 12 + i, m[s[2 * i]], m[s[2 * i + 1]])
        for i in range(4):
            G(v, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, m[s[8 + 2 * i]], m[s[9 + 2 * i]])
    return [x ^ y ^ z for x, y, z in zip(h, v[:8], v[8:])]


def word(a):
    return a.int(0, M)


def comp(a):
    m = a.load("blake2s.blake2s")
    w = a.p["words"]
    h = [word(a) if a.p["h"] else IV[i] ^ (0x01010020 if i == 0 else 0) for i in range(8)]
    msg = [word(a) if i in w else (i * 0x9E3779B1 + 77) & M for i in range(16)]
    t = [word(a) if a.p["t"] else c for c in (64, 0, M, 0)]
    o = m.blake2s_compress(h=list(h), message=list(msg), t0=t[0], t1=t[1], f0=t[2], f1=t[3])
    a.check(len(o) == 8 and a.alleq(o, compress(h, msg, *t)), "the compression function is that of BLAKE2s")
    a.wit("done")


def felts(a):
    m = a.load("blake2s.blake2s")

    def real(d):
        d = bytes(d)
        w = [int.from_bytes(d[4 * i:4 * i + 4], "little") for i in range(28)]
        return b"".join(x.to_bytes(4, "little") for x in compress(w[:8], w[8:24], *w[24:]))

    def C(h, message, t0, t1, f0, f1):
        b = []
        for x in list(h) + list(message) + [t0, t1, f0, f1]:
            b += a.tobytes(x, 4)
        o = list(a.uf("blake2s_compress", a.mkbytes(b), 32, real))
        return [a.frombytes(o[4 * i:4 * i + 4]) for i in range(8)]
    if a.sym:
        a.patch(m, "blake2s_compress", C)
    k = a.pick(*a.p["n"])
    enc, le = bool(a.p["enc"]), bool(a.p["le"])
    lo, hi = a.p["range"]
    data = [a.int(lo, hi) for _ in range(k)]
    r = m.calculate_blake2s_hash_from_felt252s(list(data), enc, le)
    words = []
    for x in data:
        v = x % P
        if enc and a.cond(v < 1 << 63):
            n = 2
        else:
            n = 8
            if enc:
                v = v + (1 << 255)
        w = [(v >> (32 * i)) & M for i in range(n)]
        words += w if le else w[::-1]
    h = [IV[0] ^ 0x01010020] + IV[1:]
    blocks = max(1, (len(words) + 15) // 16)
    for i in range(blocks):
        b = words[16 * i:16 * i + 16]
        b = b + [0] * (16 - len(b))
        last = i == blocks - 1
        h = C(h, b, 4 * len(words) if last else 64 * (i + 1), 0, M if last else 0, 0)
    s = a.frombytes([y for x in h for y in a.tobytes(x, 4)])
    a.check(r == s % P, "the digest is the BLAKE2s hash of the encoded elements, modulo the prime")
    a.wit("done")
    if a.p["n"][1] > 2:
        a.wit("two blocks", blocks >= 2)
