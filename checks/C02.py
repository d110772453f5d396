"""C02: compressed signature format: exact, canonical, memory-safe."""
from vpcore import main
from vpll import LJob, run_jobs


def jobs(tier):
    out = []

    def add(logn, mode, pre, phase, k, suf=0, cut=0, pos=False):
        n = 1 << logn
        out.append(LJob("comp.%s.n%d.pre%d.ph%d.k%d.suf%d.cut%d" % ("dec" if mode else "enc", n, pre, phase, k, suf, cut),
                        "codec_comp.c", ["codec.c"],
                        ["-DLOGN=%d" % logn, "-DMODE=%d" % mode, "-DPRE=%d" % pre, "-DPHASE=%d" % phase, "-DK=%d" % k,
                         "-DSUF=%d" % suf, "-DCUT=%d" % cut] + (["-DPOS"] if pos else []), key="comp." + ("dec" if mode else "enc"), timeout=850, select_fork=True))
    deep = tier == "thorough"
    for k in (0, 1, 2, 3, 4) + ((5, 6) if deep else ()):
        add(1, 1, 0, 0, k)                       # n = 2, every byte string of that length
    for ph in range(8):
        add(9, 1, 510, ph, 4 if deep else 3)               # end of a degree-512 encoding, all bit phases
        add(9, 1, 511, ph, 3)
        add(9, 1, 256, ph, 2, 258 if ph else 256, 0)                # window in the middle
        add(9, 0, 510, ph, 2 if deep else 1)
        add(9, 0, 511, ph, 1, 0, 1)
    for ph in (0, 5):
        add(9, 1, 0, 0, 3 if deep else 2, 512 if ph else 510)
        add(9, 0, 255, ph, 1, pos=True)
        add(9, 0, 0, 0, 1, pos=True)
        add(9, 1, 508, ph, 2, 4, 1)
        add(9, 1, 508, ph, 1, 4, 0)
    add(1, 0, 1, 0, 1)
    add(1, 0, 1, 3, 1, 0, 1)
    add(2, 1, 0, 0, 4 if not deep else 6)
    if deep:
        add(1, 0, 0, 0, 2)
        add(1, 0, 0, 0, 2, 0, 1)
        for ph in range(8):
            add(10, 1, 1022, ph, 3)
            add(10, 0, 1023, ph, 1)
            add(9, 1, 128, ph, 3, 384)
    return out


def check(ctx):
    ctx.bound("decoder: n=2 every byte string of length 0..4 (6 thorough), n=4 of length 4 (6); n=512 (1024): 2..4 symbolic bytes at the "
              "start, middle and end at all 8 bit phases, concrete coefficients elsewhere",
              "encoder: n=2 every 16-bit value next to a fixed one (all pairs in thorough); n=512: one (two) fully symbolic coefficient(s) at start/middle/end, all bit phases; "
              "output buffer exact and one byte short",
              "outside: more than 4 consecutive symbolic bytes at n=512 (the decoder state is (accumulator, bit phase) and all phases are covered)")
    run_jobs(ctx, jobs(ctx.tier))


main("C02", check)
