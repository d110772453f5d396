"""P15: BLAKE2s and the hash of field elements (Python)."""
from vpcore import main
from vppy import PJob, run_jobs

P = 2 ** 251 + 17 * 2 ** 192 + 1


def jobs(tier):
    t = tier == "thorough"
    out = []

    def add(name, fn, **p):
        out.append(PJob(name, "h_b2.py", fn, p, key="blake2s"))
    add("compress.all", "comp", words=list(range(16)), h=1, t=1)
    add("compress.msg", "comp", words=list(range(16)), h=0, t=0)
    for enc in (0, 1):
        for le in (0, 1):
            add("felts.enc%d.le%d" % (enc, le), "felts", enc=enc, le=le, n=(0, 12 if t else 7), range=(0, P - 1))
    add("felts.small", "felts", enc=1, le=1, n=(7, 9), range=(0, (1 << 63) - 1))
    add("felts.mod", "felts", enc=1, le=0, n=(1, 4), range=(P - 4, P + (1 << 64)))
    add("felts.neg", "felts", enc=1, le=1, n=(1, 2), range=(-(1 << 70), 5))
    return out


def check(ctx):
    ctx.bound("the compression function on all words; up to 7 (thorough 12) field elements of any size, 7 to 9 below 2^63, and values around the prime; compression as an unknown function there")
    run_jobs(ctx, jobs(ctx.tier))


main("P15", check)
