"""C14: the norm bound."""
from vpcore import main
from vpll import LJob, run_jobs


BOUND = [0, 101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]


def extra(b):
    """e such that b - e^2 is a sum of two squares: the bound itself is reached by two symbolic coefficients"""
    sq = {i * i for i in range(10000)}
    return next((e for e in range(200) if any(b - e * e - i * i in sq for i in range(8200) if i * i <= b - e * e)), 0)


EXTRA = [extra(b) for b in BOUND]


def jobs(tier):
    out = []

    def add(logn, half, w, fill=0, sat=0, fill1=None):
        out.append(LJob("%s.n%d.w%d-%d-%d.fill%d%s" % ("is_short_half" if half else "is_short", 1 << logn, *w, fill, ".sat" if sat else ".x%d" % fill1 if fill1 is not None else ""),
                        "norm.c", ["common.c"], ["-DLOGN=%d" % logn, "-DHALF=%d" % half, "-DW0=%d" % w[0], "-DW1=%d" % w[1], "-DW2=%d" % w[2],
                                                 "-DFILL=%d" % fill, "-DEX=%d" % (EXTRA[logn] if not (half or fill or fill1) else -fill), "-DSATUR=%d" % sat] + (["-DFILL1=%d" % fill1] if fill1 is not None else []), key="norm", timeout=850, solver_timeout=800))
    logns = (1, 2, 8, 9, 10) if tier == "quick" else range(1, 11)
    for half in (0, 1):
        for logn in logns:
            n = 1 << logn
            ps = [(0, n - 1, n - 1), (n - 1, 0, 0)]
            if tier != "quick":
                ps += [(n // 2, n // 2, n - 1), (n - 1, n - 1, 0)]
            for w in ps:
                add(logn, half, w)
        add(9, half, (511, 300, 300), 181)
        add(9, half, (256, 511, 511), 180)
        # the sum of one vector alone comes close to 2^31 / 2^32, so that the symbolic coefficients take it across
        if not half:
            add(9, half, (0, 511, 511), 0, 0, 2880)
            add(9, half, (511, 0, 0), 0, 0, 2040)
        add(9, half, (511, 0, 511), 2880, 0, 0)
        add(9, half, (0, 0, 511), 2040, 0, 0)
        if half:
            add(9, half, (0, 511, 511), 0, 1)
    return out


def check(ctx):
    ctx.bound("all degrees' thresholds for 2, 4, 256, 512, 1024 (thorough: 2..1024); two (thorough: three) coefficients, at both ends of the vectors, "
              "symbolic over all 16-bit values, the others 0 or +-180/181; partial norm symbolic over 0..2^31-1, and its saturated value")
    run_jobs(ctx, jobs(ctx.tier))


main("C14", check)
