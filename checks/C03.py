"""C03: 16-bit (on-chain layout) signature codec."""
from vpcore import main
from vpll import LJob, run_jobs


def jobs(tier):
    out = []

    def add(logn, mode, w, cut=0):
        out.append(LJob("sig16.%s.n%d.w%d-%d.cut%d" % ("dec" if mode else "enc", 1 << logn, w[0], w[1], cut), "codec_sig16.c", ["codec.c"],
                        ["-DLOGN=%d" % logn, "-DMODE=%d" % mode, "-DW0=%d" % w[0], "-DW1=%d" % w[1], "-DCUT=%d" % cut],
                        key="sig16." + ("dec" if mode else "enc"), timeout=850))
    for mode in (0, 1):
        for logn in (1, 3, 5):
            add(logn, mode, (0, 1 << logn))
        add(9, mode, (0, 64), 1)
        add(1, mode, (0, 2), 1)
        if tier == "thorough":
            add(9, mode, (0, 512))
            add(10, mode, (0, 256))
            add(10, mode, (768, 1024))
        else:
            for k in range(0, 512, 128):
                add(9, mode, (k, k + 128))
    return out


def check(ctx):
    ctx.bound("degrees 2, 8, 32 with everything symbolic; degree 512 with windows of 128 symbolic coefficients covering every position "
              "(all 512 at once, and degree 1024 windows, in the thorough tier); exact and truncated buffers")
    run_jobs(ctx, jobs(ctx.tier))


main("C03", check)
