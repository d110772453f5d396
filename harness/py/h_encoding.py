"""encoding.py: compress / decompress against a bit-level reading of the format."""


class Bad(Exception):
    pass


def bits_of(x):
    out = []
    for b in x:
        out += [(b >> (7 - i)) & 1 for i in range(8)]
    return out


def spec_decode(a, bits, n):
    """(coefficients, bits consumed), or raises Bad; the unary runs are followed by branching"""
    pos, v = 0, []
    for _ in range(n):
        if pos + 8 > len(bits):
            raise Bad()
        s = bits[pos]
        low = 0
        for i in range(7):
            low = (low << 1) | bits[pos + 1 + i]
        p = pos + 8
        k = 0
        while True:
            if p >= len(bits):
                raise Bad()
            if bits[p] == 1:
                break
            k += 1
            p += 1
        p += 1
        m = low + (k << 7)
        if a.andc(s == 1, m == 0):
            raise Bad()
        v.append(a.ite(s == 1, -m, m))
        pos = p
    return v, pos


def decompress(a):
    E = a.load("encoding")
    L, slen, n = a.p["len"], a.p["slen"], a.p["n"]
    x = a.bytes(L)
    # a window of symbolic bytes inside fixed ones
    r = E.decompress(x, slen, n)
    bits = bits_of(x)
    try:
        if L > slen:
            raise Bad()
        v, pos = spec_decode(a, bits, n)
    except Bad:
        a.check(r is False, "a string that is not an encoding is refused")
        a.wit("refused")
        return
    zero = a.andc(*[b == 0 for b in bits[pos:]])
    if r is False:
        a.check(a.notc(zero), "a canonical encoding is accepted")
        a.wit("padding refused", a.notc(zero))
    else:
        a.check(zero, "the bits after the last coefficient are zero")
        a.check(len(r) == n and a.alleq(r, v), "the decoded coefficients are those written")
        a.wit("accepted")


def compress(a):
    E = a.load("encoding")
    slen, n, m = a.p["slen"], a.p["n"], a.p["max"]
    pre = a.p.get("pre", [])
    post = a.p.get("post", [])
    v = pre + a.ints(n, -m, m) + post
    r = E.compress(list(v), slen)
    tot = 0
    for c in v:
        k = 0
        while not a.cond(abs(c) < ((k + 1) << 7)):
            k += 1
        tot += 9 + k
    if r is False:
        a.check(tot > 8 * slen, "compression fails only when the encoding is too long")
        a.wit("too long")
        return
    a.check(tot <= 8 * slen, "compression fails when the encoding is too long")
    a.check(len(r) == slen, "the compressed string has the requested length")
    bits = bits_of(r)
    try:
        w, pos = spec_decode(a, bits, len(v))
    except Bad:
        a.check(False, "the compressed string is an encoding")
        return
    a.check(a.alleq(w, v), "the compressed string encodes the vector")
    a.check(a.andc(pos == tot, *[b == 0 for b in bits[pos:]]), "the padding is zero")
    d = E.decompress(r, slen, len(v))
    a.check(d is not False and a.alleq(d, v), "decompression inverts compression")
    a.wit("compressed")


def decode16(a):
    E = a.load("encoding")
    n = a.p["n"]
    x = a.bytes(a.p["len"])
    r, e = a.attempt(lambda: E.decode16(x, n), ValueError)
    if len(x) % 2:
        a.check(e is not None, "an odd length is refused")
        a.wit("odd")
        return
    a.check(e is None and len(r) == len(x) // 2 and a.alleq(r, [x[2 * i] * 256 + x[2 * i + 1] for i in range(len(x) // 2)]), "16-bit groups are read big-endian")
    a.wit("even")
