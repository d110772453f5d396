"""keccak_prng.py, blake2s_prng.py, keccaxof.py: counter-mode streams."""
import struct


def setup(a, mod):
    if a.sym:
        import pystubs
        a.stubs(pystubs.crypto(a))
        a.stubs(pystubs.hashlib_stub(a))
        a.stubs(pystubs.eth_abi())
    return a.load(mod)


def hasher(a, kind):
    def kreal(d):
        from Crypto.Hash import keccak
        return keccak.new(digest_bytes=32, data=bytes(d)).digest()

    def breal(d):
        import hashlib
        return hashlib.blake2s(bytes(d)).digest()
    if kind == "blake2s":
        return lambda d: list(a.uf("blake2s32", a.mkbytes(d), 32, breal))
    return lambda d: list(a.uf("keccak32", a.mkbytes(d), 32, kreal))


def pieces_of(a, spec):
    return [a.bytes(a.pick(lo, hi)) for lo, hi in spec]


class Stream:
    def __init__(self, H, data, chain):
        self.H, self.chain, self.ctr, self.buf = H, chain, 0, []
        self.s = H(data)
        if chain:
            self.buf = list(self.s)

    def read(self, n):
        while len(self.buf) < n:
            if self.chain:
                self.s = self.H(self.s)
                self.buf += self.s
            else:
                self.buf += self.H(self.s + list(struct.pack(">Q", self.ctr)))
                self.ctr += 1
        r, self.buf = self.buf[:n], self.buf[n:]
        return r


def stream(a):
    mod, cls = a.p["mod"], a.p["cls"]
    kind = "blake2s" if "blake" in mod else "keccak"
    m = setup(a, mod)
    H = hasher(a, kind)
    C = getattr(m, cls)
    x = C.new() if a.p.get("new") else C()
    pieces = pieces_of(a, a.p["absorb"])
    total, limit = [], a.p.get("limit")
    for p in pieces:
        r, e = a.attempt(lambda: x.update(p) if a.p.get("upd", 1) else x.inject(p), ValueError)
        if limit is not None and len(total) + len(p) > limit:
            a.check(e is not None, "input beyond the documented buffer is refused")
            a.wit("refused")
            continue
        a.check(e is None, "input within the documented buffer is accepted")
        total += list(p)
    reads = [a.pick(lo, hi) for lo, hi in a.p["reads"]]
    if limit is not None:
        r, e = a.attempt(lambda: x.read(3), ValueError)
        a.check(e is not None, "reading before finalisation is refused")
    x.flip()
    sp = Stream(H, total, cls == "KeccaXOF")
    for i, n in enumerate(reads):
        o = x.read(n) if i % 2 == 0 or not hasattr(x, "extract") else x.extract(n)
        a.check(len(o) == n and a.alleq(o, sp.read(n)), "the output is the documented stream")
        if limit is not None and i == 0:
            r, e = a.attempt(lambda: x.update(b"a"), ValueError)
            a.check(e is not None, "input after finalisation is refused")
            r, e = a.attempt(lambda: x.flip(), ValueError)
            a.check(e is not None, "a second finalisation is refused")
    a.wit("done")
