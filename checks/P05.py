"""P05: hash_to_point (Python)."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    out = []

    def add(fn, **p):
        out.append(PJob("%s.%s" % (fn, ".".join("%s%s" % kv for kv in p.items())), "h_h2p.py", fn, p, key="h2p"))
    for n in (2, 4, 8):
        add("h2p", n=n, draws=8 if tier == "quick" else 11)
    for n, at in ((512, 0), (512, 300), (512, 507), (512, 510), (1024, 1020)):
        add("h2p", n=n, draws=5, at=at, salt=40, msg=32)
    add("h2p", n=2, draws=2, salt=0, msg=0)
    for x in ("KeccakPRNG", "Blake2sPRNG", "SHAKE"):
        add("h2p_xof", xof=x, n=4, msg=7, draws=4)
        add("h2p_xof", xof=x, n=32, msg=101, draws=1)
    add("h2p_xof", xof="KeccakPRNG", n=4, msg=7, draws=3, cls=0)
    return out


def check(ctx):
    ctx.bound("degree 2..8 with all of 8 (thorough 11) draws free, degrees 512 and 1024 with a window of 5 free draws; salts and messages of fixed lengths with free bytes; "
              "with the real XOF classes over unknown hash functions: degree 4 with up to 4 free rejections, degree 32 with one")
    run_jobs(ctx, jobs(ctx.tier))


main("P05", check)
