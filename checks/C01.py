"""C01: fixed-width codecs (public key, 16-bit public key, secret-key components) are exact and canonical."""
from vpcore import main, TIER
from vpll import LJob, run_jobs

KINDS = [(0, 14, "modq"), (1, 16, "modq16"), (2, 6, "trim_i8"), (2, 8, "trim_i8"), (3, 12, "trim_i16")]


def jobs(tier):
    out = []

    def add(kind, bits, nm, logn, mode, delta, win=None):
        n = 1 << logn
        d = ["-DKIND=%d" % kind, "-DBITS=%d" % bits, "-DLOGN=%d" % logn, "-DMODE=%d" % mode, "-DDELTA=%d" % delta]
        if win:
            d += ["-DW0=%d" % win[0], "-DW1=%d" % win[1]]
        out.append(LJob("%s%d.n%d.%s.d%+d%s" % (nm, bits, n, "dec" if mode else "enc", delta, ".w%d-%d" % win if win else ""),
                        "codec_fixed.c", ["codec.c"], d, key="%s%d.%s" % (nm, bits, "dec" if mode else "enc"), timeout=850))
    for k, b, nm in KINDS:
        for mode in (0, 1):
            if tier == "thorough":
                add(k, b, nm, 9, mode, 0)
            else:
                for w in ((0, 128), (128, 256), (256, 384), (384, 512)) if k == 0 else ((0, 40), (448, 512)):
                    add(k, b, nm, 9, mode, 0, w)
            add(k, b, nm, 9, mode, -1)
            add(k, b, nm, 9, mode, 1, (488, 512))
            for logn in (1, 2, 3, 4, 5):
                add(k, b, nm, logn, mode, 0)
                add(k, b, nm, logn, mode, -1)
            if tier == "thorough":
                add(k, b, nm, 10, mode, 0, (0, 320))
                add(k, b, nm, 10, mode, 0, (704, 1024))
    if tier == "thorough":
        for b in (5, 7):
            for mode in (0, 1):
                add(2, b, "trim_i8", 9, mode, 0)
    out.sort(key=lambda j: "n512" not in j.name or ".w" in j.name)
    return out


def check(ctx):
    ctx.bound("degrees 2..32 with every coefficient / byte symbolic; degree 512: windows of 128 (public "
              "key) or 40/64 symbolic coefficients with fixed neighbours; every coefficient symbolic at once in the thorough tier",
              "buffers of the exact size, one byte short and one byte long (the sizes are what the callers pass)",
              "outside: degrees > 1024, component widths other than those used for Falcon-512/1024 secret keys (5..8, 12)")
    run_jobs(ctx, jobs(ctx.tier))


main("C01", check)
