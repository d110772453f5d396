"""C11: the verification equation."""
from vpcore import main
from vpll import run_jobs
import ringjobs


def jobs(tier):
    return ringjobs.jobs(tier, (8, 1))


def check(ctx):
    ctx.bound("degrees 512, 2, 8 (thorough: every power of two 2..1024), every coefficient of every operand symbolic over its whole range")
    ctx.stub("is_short (decided by C14) is a stub with an arbitrary answer that checks its arguments")
    ctx.assume("the modular scalar functions are replaced by the algebraic operation only after z3 proves, from their current code, that they "
               "compute it for all operands below q; x^(q-2) is the inverse of x modulo the prime q (Fermat)")
    run_jobs(ctx, jobs(ctx.tier))


main("C11", check)
