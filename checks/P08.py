"""P08: integer parts of the Gaussian samplers (Python)."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    t = tier == "thorough"
    out = []

    def add(name, fn, **p):
        out.append(PJob(name, "h_gauss.py", fn, p, key="gauss"))
    add("base", "base")
    add("approx", "approx", x=None, c=None)
    for i, x in enumerate((0, 1 << 60, 0x2b992ddfa23249d6, 0x58b90bfbe8e00000)):
        add("approx.x%d" % i, "approx", x=x, c=None)
    add("approx.c", "approx", x=None, c=1 << 63)
    for i, (lo, hi) in enumerate(((0, 3), (7, 9), (30, 33), (60, 62), (63, 67))):
        add("ber.%d" % i, "ber", s=(lo, hi), eps=0.25)
    add("ber.e", "ber", s=(0, 2), eps=0.01)
    for i, (mu, sg, mn) in enumerate(((0.0, 1.5, 1.2778), (-17.25, 1.8, 1.2778), (3.999, 1.28, 1.2778), (-0.5, 1.7, 1.298), (91.0, 1.43300980528773, 1.43200980528773))):
        add("sampler.%d" % i, "sampler", mu=mu, sigma=sg, sigmin=mn, tries=1)
    add("sampler.tries", "sampler", mu=-2.5, sigma=1.6, sigmin=1.2778, tries=2)
    for l in (10, 9, 8) if t else (10, 9):
        add("mkgauss.%d" % l, "mkg", logn=l)
    add("small.2", "small", n=2, extra=3, lim=200, logn=1)
    add("small.4", "small", n=4, extra=2, lim=200, logn=9)
    add("small.1", "small", n=1, extra=4, lim=1000, logn=10)
    add("small.6", "small", n=6, extra=0 if not t else 1, lim=128, logn=9)
    return out


def check(ctx):
    ctx.bound("all random bytes; every integer part 0..67 around the limits of the exponent; centres and deviations from a list (floating point is not symbolic)")
    run_jobs(ctx, jobs(ctx.tier))


main("P08", check)
