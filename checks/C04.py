"""C04: opening a signed message."""
from vpcore import main
from vpll import LJob, run_jobs

OV = ["modq_decode", "modq_decode16", "to_ntt_monty", "comp_decode", "comp_decode16", "i_shake256_init", "i_shake256_inject",
      "i_shake256_flip", "hash_to_point_vartime", "hash_to_point_ct", "i_keccak256_init", "i_keccak256_inject", "i_keccak256_flip",
      "keccak_hash_to_point_vartime", "verify_raw", "verify_recover_epervier"]
OV = ["falcon_inner_" + x for x in OV]


def jobs(tier):
    out = []
    FN = ["crypto_sign_open", "zknox_crypto_sign_open", "zknox_crypto_sign_open_epervier"]
    SRCS = ["nist.c", "nist16.c", "epervier16.c"]

    def add(var, eth, lmin, lmax, lo=64, hi=64, sig=None):
        out.append(LJob("open.%s%s.len%d-%d" % (SRCS[var][:-2], ".eth" if eth else "", lmin, lmax), "api_open.c", [SRCS[var]],
                        ["-DVARIANT=%d" % var, "-DSIGN_OPEN=" + FN[var], "-DLMIN=%d" % lmin, "-DLMAX=%d" % lmax, "-DSYMLO=%d" % lo, "-DSYMHI=%d" % hi] + (["-DSIGMAX=%d" % sig] if sig else []),
                        repo_defs=["-DETHFALCON"] if eth else [], override=OV, key="open." + SRCS[var][:-2] + (".eth" if eth else ""),
                        timeout=850))
    deep = tier == "thorough"
    for eth in (0, 1):
        add(0, eth, 0, 43)
        for k in range(44, 64 if deep else 50, 2):
            add(0, eth, k, k + 1)
        for k in (255, 256, 3300) + ((65535 - 40,) if deep else ()):
            add(0, eth, 42 + k + 3, 42 + k + 3, sig=3)
            add(1, eth, 42 + k + 1025, 42 + k + 1025, sig=1025)
        add(1, eth, 0, 46)
        add(1, eth, 1066, 1066)
        add(1, eth, 1067, 1068)
        if deep:
            add(1, eth, 1069, 1072)
    add(2, 0, 0, 46)
    add(2, 0, 1068, 1068)
    add(2, 0, 2093, 2093)
    add(2, 0, 2094, 2095)
    if deep:
        add(2, 0, 2096, 2098)
        add(2, 0, 2080, 2082)
    return out


def check(ctx):
    ctx.bound("signed messages of every length 0..49 (63 thorough) [NIST framing], 0..46 and 1066..1068 (1072) [16-bit framing], 0..46, 1068, "
              "2093..2095 [epervier framing], all length fields, header bytes and the first/last 64 bytes symbolic, every outcome of the callees",
              "and message lengths 255, 256, 3300 (65495) with the accepted signature length", "outside: other message lengths (the message is only copied and hashed)")
    ctx.stub("key/signature decoders, hash and verifier are replaced by contract stubs that check their arguments; they are decided by C01-C03, C07, C12")
    run_jobs(ctx, jobs(ctx.tier))


main("C04", check)
