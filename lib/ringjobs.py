"""Jobs of C11-C13 (ring arithmetic of vrfy.c)."""
from vpll import LJob
from ringspec import setup_for

NAMES = {1: "verify_raw", 2: "compute_public", 3: "complete_private", 4: "verify_recover", 5: "verify_recover_epervier",
         6: "count_nttzero", 7: "hint_epervier", 8: "to_ntt", 9: "is_invertible"}


def jobs(tier, ops):
    out = []
    for op in ops:
        ls = [9, 1, 3] if tier != "thorough" else [9, 10, 1, 2, 3, 4, 5, 6, 7, 8]
        for logn in ls:
            if op == 7 and logn > 9:
                continue
            out.append(LJob("%s.n%d" % (NAMES[op], 1 << logn), "vrfy_alg.c", ["vrfy.c"], ["-DLOGN=%d" % logn, "-DOP=%d" % op],
                            opt=["-fno-inline"], setup=setup_for(op, logn), key=NAMES[op], timeout=850))
    return out


