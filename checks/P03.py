"""P03: Keccak / Blake2s counter-mode PRNGs and KeccaXOF (Python)."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    out = []
    deep = tier != "quick"

    def add(name, **p):
        out.append(PJob(name, "h_prng.py", "stream", p, key="stream"))
    for mod, cls, lim in (("keccak_prng", "KeccakPRNG", 4096), ("blake2s_prng", "Blake2sPRNG", 1024)):
        P = dict(mod=mod, cls=cls, limit=lim)
        m = 70 if deep else 36
        add(cls + ".reads", absorb=[[3, 3]], reads=[[0, m], [0, m], [5, 5]], new=1, **P)
        add(cls + ".reads3", absorb=[[3, 3]], reads=[[30, 34], [0, 34], [0, 3], [31, 33]], upd=0, **P)
        add(cls + ".readlong", absorb=[[1, 1]], reads=[[94, 98], [120, 130], [20, 20]], **P)
        add(cls + ".absorb", absorb=[[0, 40], [0, 40], [0, 2]], reads=[[33, 33], [4, 4]], **P)
        add(cls + ".full", absorb=[[lim - 3, lim + 2], [0, 3], [0, 2]], reads=[[32, 32]], **P)
        add(cls + ".over", absorb=[[40, 40], [lim - 41, lim - 39]], reads=[[2, 2]], **P)
    add("KeccaXOF.reads", mod="keccaxof", cls="KeccaXOF", absorb=[[3, 3], [0, 2]], reads=[[0, 36], [1, 36], [2, 2]], new=1)
    add("KeccaXOF.absorb", mod="keccaxof", cls="KeccaXOF", absorb=[[0, 40], [0, 40]], reads=[[2, 2]] * 34)
    return out


def check(ctx):
    ctx.bound("all input bytes; every split of up to 80 absorbed bytes into two or three pieces and lengths around the buffer limit; every pair of read lengths up to 36 "
              "(thorough 70), plus longer reads across several blocks; the hash function is an unknown function of bytes")
    run_jobs(ctx, jobs(ctx.tier))


main("P03", check)
