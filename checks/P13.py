"""P13: Python recovery modes (falcon_recovery, falcon_epervier)."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(fn, **p):
        out.append(PJob("%s.%s" % (fn, ".".join("%s%s" % x for x in p.items())), "h_sign.py", fn, p, key="recover"))
    for mod in ("falcon_recovery", "falcon_epervier"):
        add("recover", mod=mod, n=2)
        add("recover", mod=mod, n=2, verify=1)
        add("keyaddr", mod=mod, n=2)
        add("keyaddr", mod=mod, n=8)
        for r in ("urandom", "user"):
            add("sign", mod=mod, n=2, m=2047, rand=r)
        add("sign", mod=mod, n=2, m=2047, rand="user", tries=2, at=0, k=1)
        if deep:
            add("recover", mod=mod, n=4)
            add("sign", mod=mod, n=4, m=2047, rand="user")
    return out


def check(ctx):
    ctx.bound("degree 2 (thorough 4; key address also 8) with every coefficient, residue, hint and byte symbolic; up to two free samples before a short one; "
              "message hashing, preimage sampling, compression, polynomial products and the Keccak permutation are free values constrained by their own properties")
    run_jobs(ctx, jobs(ctx.tier))


main("P13", check)
