"""P01: Python signature compression."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    out = []

    def add(fn, **p):
        out.append(PJob("%s.%s" % (fn, ".".join("%s%s" % (k, v if not isinstance(v, list) else len(v)) for k, v in p.items())), "h_encoding.py", fn, p, key="encoding"))
    for n, L, slen in [(1, 0, 2), (1, 1, 2), (1, 2, 2), (1, 3, 3), (1, 4, 4), (2, 3, 3), (2, 3, 4), (3, 4, 4), (3, 5, 4)] + (
            [(2, 4, 4), (2, 5, 5), (3, 5, 5), (4, 5, 5), (4, 6, 6)] if tier != "quick" else []):
        add("decompress", n=n, len=L, slen=slen)
    for n, slen, m in [(1, 2, 2047), (2, 4, 2047), (2, 3, 1023), (3, 4, 600)] + ([(3, 6, 2047), (2, 6, 6144)] if tier != "quick" else []):
        add("compress", n=n, slen=slen, max=m)
    add("compress", n=1, slen=625, max=2047, pre=[(i * 37) % 300 - 150 for i in range(255)], post=[(i * 91) % 300 - 150 for i in range(256)])
    add("compress", n=1, slen=625, max=6144, pre=[(i * 37) % 300 - 150 for i in range(511)])
    add("decode16", n=3, len=6)
    add("decode16", n=3, len=5)
    return out


def check(ctx):
    ctx.bound("decompress: all byte strings of up to 5 bytes for 1..3 coefficients (thorough 6 bytes, 4); compress: all vectors of 1..3 coefficients up to +-2047, "
              "and one symbolic coefficient inside a degree-512 vector")
    run_jobs(ctx, jobs(ctx.tier))


main("P01", check)
