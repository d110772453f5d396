"""P04: Keccak-f[1600], the KeccakHash sponge and SHAKE (Python)."""
from vpcore import main
from vppy import PJob, run_jobs


def jobs(tier):
    out = [PJob("f1600.all", "h_keccak.py", "f1600", dict(live=list(range(25))), key="f1600"),
           PJob("f1600.some", "h_keccak.py", "f1600", dict(live=[0, 24], fill=(1 << 64) - 1), key="f1600")]

    def add(name, **p):
        out.append(PJob("sponge." + name, "h_keccak.py", "sponge", p, key="sponge"))
    for rate, ds in ((136, 0x1f), (136, 0x01), (168, 0x1f), (72, 0x06)):
        add("split.%d.%d" % (rate, ds), rate=rate, ds=ds, via="hash", absorb=[[0, 2], [rate - 40, rate + 3], [1, 1]], squeeze=[[40, 40]])
        for k, (lo, hi) in enumerate([(0, 2), (rate - 3, rate + 2), (2 * rate - 2, 2 * rate + 1)]):
            add("len%d.%d.%d" % (k, rate, ds), rate=rate, ds=ds, via="hash", absorb=[[lo, hi]], squeeze=[[rate - 1, rate + 1], [3, 3]])
    add("mid", rate=136, ds=0x1f, via="hash", absorb=[[60, 60], [73, 78], [0, 3], [132, 137]], squeeze=[[2, 2]])
    add("sq", rate=136, ds=0x1f, via="hash", absorb=[[5, 5]], squeeze=[[0, 137], [0, 1], [134, 137], [1, 1]])
    add("sq2", rate=136, ds=0x1f, via="hash", absorb=[[5, 5]], squeeze=[[270, 275], [0, 3], [2, 2]])
    add("shake", rate=136, ds=0x1f, via="shake", absorb=[[0, 140], [0, 2], [2, 2]], squeeze=[[2, 2]] * 70)
    add("shake0", rate=136, ds=0x1f, via="shake0", absorb=[[40, 40], [80, 100]], squeeze=[[48, 48], [56, 56], [56, 56]])
    return out


def check(ctx):
    ctx.bound("the permutation on all 1600 free state bits, 24 rounds; sponge: all input bytes, lengths 0..2 blocks + 2, every split point across a block boundary, "
              "rates 72, 136, 168, with the permutation as an unknown function of the state")
    run_jobs(ctx, jobs(ctx.tier))


main("P04", check)
