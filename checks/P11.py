"""P11: ChaCha20 generator (Python)."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    t = tier == "thorough"
    out = []

    def add(name, fn="stream", **p):
        out.append(PJob(name, "h_chacha.py", fn, p, key="chacha"))
    add("wrap64", free=list(range(48)), ctr=(1 << 64) - 3, reads=[(512, 512)])
    add("wrap32", free=list(range(48)), ctr=0x1234567fffffffa, reads=[(512, 512)])
    if t:
        add("two", free=list(range(32)), ctr=(1 << 64) - 9, reads=[(500, 500), (20, 20)])
    add("reads", fn="reads", words=list(range(16)), nfree=12, reads=[(0, 9) if t else (7, 9), (505, 512), (1, 3), (510, 512)])
    add("small", fn="reads", words=[0, 1, 15], nfree=16, reads=[(1, 1), (8, 9), (485, 503), (0, 12), (9, 9)])
    return out


def check(ctx):
    ctx.bound("all 384 key bits with counters that cross the 32- and the 64-bit wrap; buffer logic: blocks of free words, up to five reads of at most 512 bytes in all crossings of a refill")
    run_jobs(ctx, jobs(ctx.tier))


main("P11", check)
