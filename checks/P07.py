"""P07: Python verification and signing."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(fn, **p):
        out.append(PJob("%s.%s" % (fn, ".".join("%s%s" % x for x in p.items())), "h_sign.py", fn, p, key="sign"))
    add("verify", n=2)
    add("verify", n=2, dflt=1, msg=0)
    add("verify", n=2, xof="Blake2sPRNG")
    add("verify", n=2, xof="SHAKE")
    for at in (0, 254, 510):
        add("verify", n=512, at=at, k=2)
    add("verify", n=1024, at=1022, k=2)
    if deep:
        add("verify", n=4)
    for r in ("urandom", "user"):
        add("sign", mod="falcon", n=2, m=2047, rand=r)
        add("sign", mod="falcon", n=2, m=2047, rand=r, tries=2)
        add("sign", mod="falcon", n=512, at=510, k=1, m=6144, rand=r)
        add("sign", mod="falcon", n=2, m=300, rand=r, realcomp=1)
    return out


def check(ctx):
    ctx.bound("degree 2 (thorough 4) with every coefficient, residue and byte symbolic; 512 and 1024 with windows; up to two free samples before a short one; "
              "message hashing, preimage sampling, products of polynomials and (except where stated) compression are free values constrained by their own properties")
    run_jobs(ctx, jobs(ctx.tier))


main("P07", check)
