"""P12: AES-256 CTR_DRBG (Python)."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    t = tier == "thorough"
    out = []

    def add(name, fn="drbg", **p):
        out.append(PJob(name, "h_drbg.py", fn, p, key="drbg"))
    add("lengths", seed=(46, 50), pers=(47, 50), reqs=[(3, 3, -1, -1)])
    add("personalisation", seed=(48, 48), pers=(0, 3), reqs=[(17, 17, -1, -1)])
    add("requests", seed=(48, 48), pers=(0, 0), reqs=[(0, 33 if t else 18, -1, -1), (15, 17, -1, -1)])
    add("long", seed=(48, 48), pers=(48, 48), reqs=[(47, 50, -1, 0), (64, 64, -1, -1), (1, 1, -1, -1)] + [(40, 40, -1, -1)] * (2 if t else 0))
    add("additional", seed=(48, 48), pers=(5, 5), reqs=[(16, 17, -1, 2), (3, 3, 46, 49), (9, 9, -1, 0)])
    add("entropy", seed=(48, 48), pers=(0, 1), reqs=[(4, 4, -1, -1)], urandom=1)
    add("limit", fn="limit")
    return out


def check(ctx):
    ctx.bound("all seeds, personalisation strings and additional inputs of 0..3 and 46..49 bytes; up to three (thorough five) requests of up to 64 bytes")
    run_jobs(ctx, jobs(ctx.tier))


main("P12", check)
