"""P06: Python key codecs."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(fn, **p):
        out.append(PJob("%s.%s" % (fn, ".".join("%s%s" % x for x in p.items())), "h_codec.py", fn, p, key="codec"))
    for n, k in [(1, 1), (2, 2), (4, 4)] + ([(8, 8)] if deep else []):
        add("modq", n=n, k=k)
    for at in (0, 255, 508):
        add("modq", n=512, at=at, k=4)
    for n, L in [(1, 2), (2, 3), (2, 4), (2, 5), (4, 7), (4, 6), (3, 6)] + ([(8, 14), (5, 9)] if deep else []):
        add("modq_dec", n=n, len=L)
    for at in (0, 400, 889):
        add("modq_dec", n=512, len=896, at=at, k=7)
    add("modq_dec", n=512, len=898, at=880, k=17 if deep else 9)
    for w in (5, 6, 7, 8):
        add("trim", n=4, k=4, w=w)
        add("trim", n=512, at=509, k=3, w=w)
        for n in (1, 2, 3):
            need = (n * w + 7) // 8
            add("trim_dec", n=n, len=need, w=w)
        add("trim_dec", n=3, len=(3 * w + 7) // 8 - 1, w=w)
        add("trim_dec", n=3, len=(3 * w + 7) // 8 + 1, w=w)
    for at in (0, 440, 889):
        add("from_bytes", n=512, len=897, at=at, k=7)
        add("from_bytes", n=1024, len=1793, at=2 * at if at < 889 else 1785, k=7)
    for L in (0, 1, 896, 897, 898, 1791, 1792, 1793, 1794):
        add("from_bytes", n=512 if L < 1000 else 1024, len=L, at=0, k=2, hdr=1)
    add("from_bytes", n=512, len=1793, at=0, k=2, hdr=1)
    for n in (2, 4, 8):
        add("complete", n=n)
    for at in (0, 254, 508):
        add("kat_pk", at=at, k=4)
    for l in (1, 2, 3) + ((6, 9) if deep else (9,)):
        add("kat_sk", logn=l, k=2 if l > 3 else 1 << l, hdr=1 if l == 2 else 0)
    add("kat_sk", logn=9, k=2, at=510, hdr=1)
    return out


def check(ctx):
    ctx.bound("degrees 1..4 (thorough 8) with every coefficient or byte symbolic; 512 and 1024 with windows of 2..4 coefficients or 7 bytes at the ends and in the "
              "middle; widths 5..8; key lengths around both parameter sets with a symbolic header")
    run_jobs(ctx, jobs(ctx.tier))


main("P06", check)
