"""rng.py: ChaCha20 stream of the reference code."""
M = 0xffffffff


def load(a):
    return a.load("rng")


def rot(x, n):
    return ((x << n) | (x >> (32 - n))) & M


def quarter(s, i, j, k, l):
    a, b, c, d = s[i], s[j], s[k], s[l]
    a = (a + b) & M
    d = rot(d ^ a, 16)
    c = (c + d) & M
    b = rot(b ^ c, 12)
    a = (a + b) & M
    d = rot(d ^ a, 8)
    c = (c + d) & M
    b = rot(b ^ c, 7)
    s[i], s[j], s[k], s[l] = a, b, c, d


def block(w, ctr):
    st = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(w[:10]) + [w[10] ^ (ctr & M), w[11] ^ (ctr >> 32)]
    s = list(st)
    for _ in range(10):
        for i in range(4):
            quarter(s, i, i + 4, i + 8, i + 12)
        for i in range(4):
            quarter(s, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return [(x + y) & M for x, y in zip(s, st)]


def stream(a):
    """the real generator: a free seed (or a window of it), the counter started at a given value"""
    m = load(a)
    free = a.p["free"]
    seed = [a.byte() if k in free else (k * 37 + 11) % 256 for k in range(56)]
    ctr = a.p["ctr"]
    seed[48:56] = [(ctr >> (8 * k)) & 255 for k in range(8)]
    x = m.ChaCha20(a.mkbytes(seed))
    w = [a.frombytes(seed[4 * k:4 * k + 4]) for k in range(14)]
    buf, r = [], 0
    for lo, hi in a.p["reads"]:
        k = a.pick(lo, hi)
        o = x.randombytes(k)
        if k > len(buf):
            bl = [block(w, (ctr + r * 8 + j) % (1 << 64)) for j in range(8)]
            r += 1
            buf = []
            for i in range(16):
                for j in range(8):
                    buf += a.tobytes(bl[j][i], 4)
        a.check(len(o) == k and a.alleq(o, buf[:k]), "the output is the interleaved ChaCha20 stream")
        buf = buf[k:]
    a.wit("done")


def reads(a):
    """the buffer: blocks of free words, read in pieces of any size"""
    m = load(a)
    x = m.ChaCha20(bytes(range(56)))
    blocks = []
    fixed = not hasattr(m.ChaCha20, "update")

    def upd(self):
        w = [a.int(0, M) if len(blocks) < a.p["nfree"] and i in a.p["words"] else (len(blocks) * 977 + i * 3571 + 12345) % (1 << 32) for i in range(16)]
        blocks.append(w)
        return list(w)
    if not fixed:
        a.patch(m.ChaCha20, "update", upd)
    w = [int.from_bytes(bytes(range(56))[4 * k:4 * k + 4], "little") for k in range(14)]
    c0 = w[12] + (w[13] << 32)
    buf, r = [], 0
    for lo, hi in a.p["reads"]:
        k = a.pick(lo, hi)
        o = x.randombytes(k)
        if k > len(buf):
            bl = [block(w, c0 + r * 8 + j) for j in range(8)] if fixed else blocks[8 * r:8 * r + 8]
            r += 1
            buf = []
            for i in range(16):
                for j in range(8):
                    buf += a.tobytes(bl[j][i], 4)
        a.check(len(o) == k and a.alleq(o, buf[:k]), "bytes are handed out in order, once, from the interleaved blocks")
        a.check(fixed or len(blocks) == 8 * r, "eight blocks are computed per refill")
        buf = buf[k:]
    a.wit("done")
