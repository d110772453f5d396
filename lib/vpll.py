"""C back end: the C sources of /repo are compiled to LLVM IR with clang, executed symbolically by llsym together with
a harness, decided by z3; counterexamples and witnesses are replayed on the natively compiled code (gcc, ASan)."""
import glob, hashlib, json, multiprocessing as mp, os, re, subprocess, threading, time, traceback, queue
from vpcore import VERIF, REPO, scratch, CheckError, TIER

SRC = os.path.join(REPO, "falcon", "nistfalcon", "src")
HC = os.path.join(VERIF, "harness", "c")
LIB = ["codec.c", "common.c", "fft.c", "fpr.c", "keygen.c", "rng.c", "shake.c", "sign.c", "vrfy.c", "keccak256.c", "keccak_prng.c"]
BASE = ["-DALGNAME=falcon512int"]
LLFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-S", "-emit-llvm", "-w", "-fno-strict-aliasing",
           "-fno-builtin", "-fno-math-errno"]
_lk = threading.Lock()
_locks = {}


def run_cmd(cmd, timeout=None, cwd=None, stdin=None):
    import signal
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return -9, o.decode(errors="replace"), e.decode(errors="replace"), True


class LJob:
    """harness: file in harness/c; only: basenames of the real sources linked; defs: -D for harness; repo_defs: -D for
    all; override: functions of the real sources replaced by the harness' definition of the same name (stubs);
    rename: {basename: [(old, new)]} macros applied to one real source (eg. to reach a static function)."""

    def __init__(self, name, harness, only, defs=(), repo_defs=(), override=(), rename=None, timeout=600, key=None,
                 functions=(), include=None, san=True, max_paths=200000, solver_timeout=300, witnesses=None, static_expose=(),
                 opt=None, setup=None, store_ite_max=None, select_fork=False):
        self.name, self.harness, self.only = name, harness, list(only)
        self.defs, self.repo_defs, self.override = list(defs), list(repo_defs), list(override)
        self.rename = rename or {}
        self.timeout, self.key, self.functions = timeout, key or name, list(functions)
        self.san, self.max_paths, self.solver_timeout = san, max_paths, solver_timeout
        self.opt, self.setup = opt, setup
        self.store_ite_max, self.select_fork = store_ite_max, select_fork

    def srcs(self):
        out = []
        for b in self.only:
            p = os.path.join(SRC, b)
            out.append((p, BASE + self.repo_defs + ["-D%s=%s" % r for r in self.rename.get(b, [])] + ["-I" + SRC]))
        out.append((os.path.join(HC, self.harness), BASE + self.repo_defs + self.defs + ["-I" + HC, "-I" + SRC, "-I" + os.path.dirname(SRC)]))
        return out

    def rest(self):
        """the other library sources: linked when a symbol is missing (a function may live in any of them)"""
        return [(os.path.join(SRC, b), BASE + self.repo_defs + ["-I" + SRC]) for b in LIB if b not in self.only and os.path.exists(os.path.join(SRC, b))]

    def ll(self, srcs=None):
        r = []
        fl = list(LLFLAGS)
        if self.opt:
            fl += list(self.opt)
        if self.override:
            fl += ["-fno-inline"]
        for s, f in srcs or self.srcs():
            cmd = ["clang-18"] + fl + ["-DVP_LL"] + f + [s]
            out = os.path.join(scratch(), "ll." + hashlib.sha256(repr(cmd).encode()).hexdigest()[:16] + ".ll")
            if not os.path.exists(out):
                t = out + ".%d.tmp" % os.getpid()
                rc, o, e, to = run_cmd(cmd + ["-o", t], timeout=300)
                if rc:
                    raise CheckError("clang failed on %s: %s" % (s, (o + e)[-1500:]))
                os.rename(t, out)
            r.append((os.path.basename(s), open(out).read()))
        if srcs:
            return r
        return r[-1:] + r[:-1]         # harness first

    def native(self):
        san = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"] if self.san else []
        fl = ["-O1", "-g", "-w", "-fno-strict-aliasing"] + san
        if self.override:
            fl += ["-fno-inline", "-fno-ipa-cp", "-fno-ipa-sra", "-fno-ipa-ra", "-fno-pic", "-fno-pie", "-ffunction-sections"]
        exe = os.path.join(scratch(), "nat." + hashlib.sha256(repr((self.srcs(), fl, self.override)).encode()).hexdigest()[:16])
        if os.path.exists(exe):
            return exe
        objs, lib = [], exe + ".%d.a" % os.getpid()
        nmain = len(self.srcs())
        for k, (s, f) in enumerate(self.srcs() + self.rest()):
            o_ = exe + ".%d.%d.o" % (os.getpid(), k)
            rc, o, e, _ = run_cmd(["gcc"] + fl + f + ["-c", s, "-o", o_], timeout=300)
            if rc:
                raise CheckError("gcc failed on %s: %s" % (s, (o + e)[-1500:]))
            if self.override and os.path.dirname(s) == SRC:
                rc, o, e, _ = run_cmd(["objcopy"] + ["--weaken-symbol=" + x for x in self.override] + [o_])
                if rc:
                    raise CheckError("objcopy: " + e)
            objs.append(o_)
        rc, o, e, _ = run_cmd(["ar", "rcs", lib] + objs[nmain:])
        if rc:
            raise CheckError("ar: " + e)
        t = exe + ".%d.tmp" % os.getpid()
        # harness first: its definitions win; the other library sources are an archive
        rc, o, e, _ = run_cmd(["gcc"] + fl + (["-no-pie"] if self.override else []) + objs[nmain - 1:nmain] + objs[:nmain - 1] + [
            os.path.join(HC, "vp_native.c"), lib, "-lm", "-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-all", "-o", t], timeout=300)
        if os.path.exists(lib):
            os.unlink(lib)
        if rc:
            raise CheckError("native link failed for %s: %s" % (self.name, (o + e)[-1500:]))
        os.rename(t, exe)
        for o_ in objs:
            os.unlink(o_)
        return exe

    def replay(self, vals):
        exe = self.native()
        vf = os.path.join(scratch(), "vals.%d.%d" % (os.getpid(), time.time_ns()))
        with open(vf, "w") as f:
            f.write("\n".join(str(v) for v in vals) + "\n")
        rc, o, e, to = run_cmd([exe, vf], timeout=120)
        os.unlink(vf)
        return rc, o, e


def _job(job, q):
    """runs in a child process"""
    import llsym
    r = dict(error=None, fails=[], wits=[], stats={})
    t0 = time.time()
    try:
        p = llsym.Program(job.ll(), job.solver_timeout * 1000)
        p.override = {"@" + x for x in job.override}
        p.resolver = lambda: job.ll(job.rest())
        p.max_paths = job.max_paths
        p.select_fork = job.select_fork
        if job.store_ite_max:
            p.store_ite_max = job.store_ite_max
        if job.setup:
            job.setup(p)
        if os.environ.get("VP_DEBUG"):
            p.debug = {}
        try:
            p.run()
        except Exception:
            if not p.failures:
                raise
        finally:
            if p.debug:
                print(sorted(p.debug.items(), key=lambda x: -x[1])[:12])
            r["stats"] = dict(paths=p.paths, branches=p.branches, obligations=p.obligations, discharged=p.discharged,
                              queries=p.solver.queries, solver_s=p.solver.time, checks={k: v[0] for k, v in p.checks.items()},
                              used=sorted(x for x in p.used))
        for msg, vals in p.failures:
            if any(f["msg"] == msg and f["ok"] for f in r["fails"]):
                continue
            rc, o, e = job.replay(vals)
            fl = [l[12:] for l in o.splitlines() if l.startswith("REPLAY-FAIL")]
            san = re.search(r"(ERROR: AddressSanitizer: .*|runtime error:.*)", e)
            ok = bool(fl) or bool(san) or rc < 0
            r["fails"].append(dict(msg=msg, vals=vals, rc=rc, out=o[-3000:], err=e[-3000:], ok=ok, fl=fl,
                                   what=fl[0] if fl else san.group(1) if san else "rc=%d" % rc))
        if not p.failures:
            for w, vals in p.witness.items():
                if vals is None:
                    r["wits"].append(dict(w=w, vals=None, ok=False, why="not reachable"))
                    continue
                for vals in [vals] + p.witness_alt.get(w, []):
                    rc, o, e = job.replay(vals)
                    ok = ("REPLAY-HIT " + w) in o and "REPLAY-FAIL" not in o and rc == 0
                    if ok or "REPLAY-FAIL" in o:
                        break
                r["wits"].append(dict(w=w, vals=vals, ok=ok, why=(o + e)[-500:]))
    except CheckError as e:
        r["error"] = str(e)
    except Exception as e:
        from symcore import Inconclusive
        r["error"] = ("inconclusive: %s" % e) if isinstance(e, Inconclusive) else traceback.format_exc()
    r["wall"] = time.time() - t0
    q.put(r)


def run_job(ctx, job):
    mpx = mp.get_context("fork")
    q = mpx.Queue()
    ctx.function(*job.functions)
    pr = mpx.Process(target=getattr(job, 'target', _job), args=(job, q))
    pr.start()
    t0, late = time.time(), None
    r = None
    while True:
        try:
            r = q.get(timeout=1)
            break
        except queue.Empty:
            if not pr.is_alive():
                try:
                    r = q.get(timeout=2)
                except queue.Empty:
                    pass
                break
            if time.time() - t0 > job.timeout:
                pr.kill()
                break
            if ctx.violations:
                late = late or time.time()
                if time.time() - late > 15:
                    pr.kill()          # a violation is already reported
                    pr.join()
                    return
    pr.join()
    if r is None:
        raise CheckError("%s: no answer within %ds" % (job.name, job.timeout) if time.time() - t0 > job.timeout else "%s: worker died" % job.name)
    st = r["stats"]
    if st:
        ctx.function(*[getattr(job, "lang", "C ") + u for u in st["used"] if not u.startswith("vp_")])
        ctx.add(queries=st["queries"], solver_s=st["solver_s"], obligations=st["obligations"], discharged=st["discharged"],
                states=st["paths"], transitions=st["branches"])
        ctx.detail(job.name, paths=st["paths"], branches=st["branches"], obligations=st["obligations"], checks=st["checks"],
                   solver_s=round(st["solver_s"], 2), wall_s=round(r["wall"], 2), witnesses=[w["w"] for w in r["wits"] if w["ok"]])
    if os.environ.get("VP_VERBOSE"):
        print("  [%s] wall %.1fs %s" % (job.name, r["wall"], {k: v for k, v in st.items() if k not in ("checks", "used")}), flush=True)
    done = {f["msg"] for f in r["fails"] if f["ok"]}
    for f in r["fails"]:
        if not f["ok"] and f["msg"] in done:
            continue
        if f["ok"]:
            m = f["msg"] if (f["msg"] in f["fl"] or not f["fl"]) else f["fl"][0]
            key = re.sub(r"\s+", "_", "%s:%s" % (job.key, re.sub(r"\[.*", "", m) if not f["fl"] else m))
            ctx.violation(key, "%s: %s; native replay: %s" % (job.name, f["msg"], f["what"]),
                          dict(job.info() if hasattr(job, "info") else dict(job=job.name, harness=job.harness, defs=job.defs, repo_defs=job.repo_defs), inputs=f["vals"],
                               native_rc=f["rc"], native_stdout=f["out"], native_stderr=f["err"]))
        else:
            raise CheckError("%s: counterexample to '%s' does not reproduce natively (%s %s)" % (job.name, f["msg"], f["what"], (f["out"] + f["err"])[-300:]))
    if r["error"] and not r["fails"]:
        raise CheckError("%s: %s" % (job.name, r["error"]))
    for w in r["wits"]:
        if not w["ok"]:
            raise CheckError("%s: witness %s: %s" % (job.name, w["w"], w["why"]))
        ctx.add(witnesses=1, validated=1)
        ctx.sample({"job": job.name, "witness": w["w"], "inputs": w["vals"][:48], "native": "reproduced"})


def run_jobs(ctx, jobs, workers=8, trust=None):
    from concurrent.futures import ThreadPoolExecutor
    ctx.assume(trust or "C semantics as compiled by clang -O1 for x86-64 (LP64); the LLVM-IR executor lib/llsym.py and z3 are trusted; "
               "every counterexample and every witness is replayed on the gcc-compiled code under AddressSanitizer")

    def one(j):
        if ctx.violations:
            return              # already reported: no need to explore further
        try:
            run_job(ctx, j)
        except CheckError as e:
            ctx.error(e)
        except Exception:
            ctx.error("%s: %s" % (j.name, traceback.format_exc()))
    scratch()
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, jobs))
