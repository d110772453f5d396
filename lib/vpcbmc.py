"""CBMC back end: the C sources of /repo are compiled with goto-cc, linked with a harness, decided by CBMC
(SAT), and every counterexample is replayed natively (gcc + ASan/bounds) before it is reported."""
import json, os, re, subprocess, threading, time, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
from vpcore import VERIF, REPO, scratch, CheckError, TIER

SRC = os.path.join(REPO, "falcon", "nistfalcon", "src")
HC = os.path.join(VERIF, "harness", "c")
BASE = ["-DALGNAME=falcon512int"]
_locks, _lk = {}, threading.Lock()


def _run(cmd, timeout=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return -9, o.decode(errors="replace"), e.decode(errors="replace"), True


def _compile(tool, src, flags, out):
    with _lk:
        l = _locks.setdefault(out, threading.Lock())
    with l:
        if os.path.exists(out):
            return
        rc, o, e, _ = _run([tool] + flags + ["-c", src, "-o", out + ".tmp.o"], timeout=300)
        if rc:
            raise CheckError("%s failed on %s: %s" % (tool, src, (o + e)[-1500:]))
        os.rename(out + ".tmp.o", out)


def repo_sources():
    return sorted(f for f in glob.glob(os.path.join(SRC, "*.c")) if os.path.basename(f) not in ("katrng.c",))


class CJob:
    """One CBMC query set: harness + real sources.

    rename: {source basename: [function names]} -- the definition of these functions in that file is renamed
    (macro on the compile line) so that the harness can supply a stub for all other files.
    """

    def __init__(self, name, harness, defs=(), unwind=None, unwindset=(), mem=False, rename=None, repo_defs=(),
                 timeout=600, functions=(), solver=None, extra=(), only=None, san=True, key=None, noslice=False):
        self.name, self.harness, self.defs = name, harness, list(defs)
        self.unwind, self.unwindset, self.mem = unwind, list(unwindset), mem
        self.rename, self.repo_defs, self.timeout = rename or {}, list(repo_defs), timeout
        self.functions, self.solver, self.extra, self.only, self.san = list(functions), solver, list(extra), only, san
        self.key = key or name
        self.noslice = noslice

    def sources(self):
        s = repo_sources()
        if self.only is not None:
            s = [f for f in s if os.path.basename(f) in self.only]
        return s

    def build(self, tool, extra=()):
        d = scratch()
        objs = []
        for s in self.sources():
            b = os.path.basename(s)
            fl = BASE + self.repo_defs + ["-D%s=vp_orig_%s" % (f, f) for f in self.rename.get(b, [])] + ["-I" + SRC] + list(extra)
            h = hashlib.sha256(repr((tool, s, fl)).encode()).hexdigest()[:16]
            out = os.path.join(d, "%s.%s.o" % (b, h))
            _compile(tool, s, fl, out)
            objs.append(out)
        fl = BASE + self.repo_defs + self.defs + ["-I" + HC, "-I" + SRC] + list(extra)
        hs = os.path.join(HC, self.harness)
        h = hashlib.sha256(repr((tool, hs, fl)).encode()).hexdigest()[:16]
        out = os.path.join(d, "%s.%s.o" % (self.harness, h))
        _compile(tool, hs, fl, out)
        objs.append(out)
        return objs

    def cbmc_cmd(self, gb):
        c = ["cbmc", gb, "--function", "vp_main", "--drop-unused-functions", "--no-standard-checks",
             "--no-malloc-may-fail", "--unwinding-assertions", "--object-bits", "10",
             "--max-field-sensitivity-array-size", "4096"]
        if not self.noslice:
            c.append("--slice-formula")
        if self.mem:
            c += ["--bounds-check", "--pointer-check"]
        if self.unwind:
            c += ["--unwind", str(self.unwind)]
        if self.unwindset:
            c += ["--unwindset", ",".join(self.unwindset)]
        if self.solver:
            c += self.solver
        return c + self.extra

    def native(self):
        exe = os.path.join(scratch(), "native." + hashlib.sha256(repr((self.name, self.harness, self.defs)).encode()).hexdigest()[:12])
        with _lk:
            l = _locks.setdefault(exe, threading.Lock())
        with l:
            if not os.path.exists(exe):
                san = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"] if self.san else []
                fl = ["-O1", "-g", "-w"] + san
                objs = self.build("gcc", fl)
                rc, o, e, _ = _run(["gcc"] + fl + objs + [os.path.join(HC, "vp_native.c"), "-lm", "-o", exe + ".tmp"], timeout=300)
                if rc:
                    raise CheckError("native link failed for %s: %s" % (self.name, (o + e)[-1500:]))
                os.rename(exe + ".tmp", exe)
        return exe

    def replay(self, values):
        exe = self.native()
        vf = os.path.join(scratch(), "vals.%s.%d.%d" % (os.path.basename(exe), threading.get_ident(), time.time_ns()))
        with open(vf, "w") as f:
            f.write("\n".join(str(v) for v in values) + "\n")
        rc, o, e, to = _run([exe, vf], timeout=120)
        return rc, o, e


def _json(out):
    try:
        return json.loads(out)
    except Exception:
        return None


def _inputs(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "input" and st.get("inputID") == "vp":
            v = st["values"][0]
            if "binary" in v:
                vals.append(int(v["binary"], 2))
            else:
                d = re.sub(r"[uUlL]+$", "", str(v.get("data", "0")))
                vals.append(int(d, 0))
    return vals


def run_job(ctx, job):
    t0 = time.time()
    ctx.function(*job.functions)
    objs = job.build("goto-cc", ["-DVP_CBMC"])
    gb = os.path.join(scratch(), "job." + hashlib.sha256(repr((job.name, job.defs)).encode()).hexdigest()[:12] + ".gb")
    rc, o, e, _ = _run(["goto-cc"] + objs + ["-o", gb], timeout=300)
    if rc:
        raise CheckError("goto-cc link failed for %s: %s" % (job.name, (o + e)[-1500:]))
    cmd = job.cbmc_cmd(gb)
    rc, o, e, to = _run(cmd + ["--json-ui"], timeout=job.timeout)
    if to:
        raise CheckError("%s: solver did not answer within %ds" % (job.name, job.timeout))
    js = _json(o)
    if js is None:
        raise CheckError("%s: no CBMC answer: %s" % (job.name, (o + e)[-800:]))
    msgs = [x.get("messageText", "") for x in js if "messageText" in x]
    res = [x["result"] for x in js if "result" in x]
    if not res:
        raise CheckError("%s: CBMC gave no result: %s" % (job.name, " | ".join(msgs[-6:])))
    res = res[0]
    nobody = [m for m in msgs if "no body for" in m]
    real_nobody = [m for m in nobody if "nondet_" not in m]
    steps = sum(int(m.group(1)) for m in [re.search(r"size of program expression: (\d+) steps", t) for t in msgs] if m)
    vcc = sum(int(m.group(1)) for m in [re.search(r"Generated (\d+) VCC", t) for t in msgs] if m)
    sol = sum(float(m.group(1)) for m in [re.search(r"Runtime (?:Solver|decision procedure): ([0-9.e+-]+)s", t) for t in msgs] if m)
    solv = sum(1 for t in msgs if re.search(r"Runtime (?:Solver|decision procedure)", t))
    fails, wit_ok, wit_bad, unw = [], [], [], []
    nchk = 0
    for r in res:
        d, st = r.get("description", ""), r["status"]
        if d.startswith("WITNESS "):
            (wit_ok if st == "FAILURE" else wit_bad).append(r)
        elif "unwind" in r["property"] or "recursion" in r["property"]:
            if st != "SUCCESS":
                unw.append(r)
        else:
            nchk += 1
            if st == "FAILURE":
                fails.append(r)
            elif st != "SUCCESS":
                raise CheckError("%s: %s is %s" % (job.name, r["property"], st))
    ctx.add(queries=max(1, solv), solver_s=sol, obligations=nchk, discharged=nchk - len(fails), states=steps,
            transitions=vcc, witnesses=len(wit_ok))
    ctx.detail(job.name, steps=steps, vccs=vcc, properties=nchk, witnesses=[w["description"] for w in wit_ok],
               solver_s=round(sol, 2), wall_s=round(time.time() - t0, 2), unwind=job.unwind, defs=job.defs)
    if fails:
        _handle_fail(ctx, job, cmd, fails)
        return
    if real_nobody:
        raise CheckError("%s: calls without body: %s" % (job.name, real_nobody[:3]))
    if unw:
        raise CheckError("%s: unwinding bound too small: %s" % (job.name, unw[0]["property"]))
    if wit_bad:
        raise CheckError("%s: witness not reachable: %s" % (job.name, wit_bad[0]["description"]))
    # validate one witness natively: the formula and the real code must agree
    if wit_ok and job.only is not False:
        w = wit_ok[len(wit_ok) // 2]
        rc, o, e, to = _run(cmd + ["--json-ui", "--trace", "--property", w["property"]], timeout=job.timeout)
        js = _json(o) if not to else None
        if js:
            for r in [x["result"] for x in js if "result" in x][0]:
                if r["property"] == w["property"] and r["status"] == "FAILURE":
                    vals = _inputs(r["trace"])
                    rc, ro, re_ = job.replay(vals)
                    if ("REPLAY-HIT " + w["description"]) not in ro:
                        raise CheckError("%s: witness %s does not replay natively (rc=%d, %s)" % (
                            job.name, w["description"], rc, (ro + re_)[-600:]))
                    if "REPLAY-FAIL" in ro:
                        raise CheckError("%s: native replay of a witness fails a check the solver discharged: %s" % (job.name, ro[-500:]))
                    ctx.add(validated=1)
                    ctx.sample({"job": job.name, "witness": w["description"], "inputs": vals[:64], "native": "reproduced"})


def _handle_fail(ctx, job, cmd, fails):
    done = 0
    last = None
    seen = set()
    for r in fails[:12]:
        d = r["description"]
        if d in seen:
            continue
        seen.add(d)
        rc, o, e, to = _run(cmd + ["--json-ui", "--trace", "--property", r["property"]], timeout=job.timeout)
        js = _json(o) if not to else None
        if not js:
            last = "no trace for %s" % r["property"]
            continue
        rr = [x["result"] for x in js if "result" in x]
        tr = None
        for x in (rr[0] if rr else []):
            if x["property"] == r["property"] and x["status"] == "FAILURE":
                tr = x.get("trace")
        if tr is None:
            last = "no trace for %s" % r["property"]
            continue
        vals = _inputs(tr)
        rc, ro, re_ = job.replay(vals)
        fl = [l for l in ro.splitlines() if l.startswith("REPLAY-FAIL")]
        san = "AddressSanitizer" in re_ or "runtime error" in re_
        crash = rc < 0
        if fl or san or crash:
            loc = r.get("sourceLocation", {})
            what = fl[0][12:] if fl else (re.search(r"(ERROR: AddressSanitizer: \S+.*|runtime error.*)", re_).group(1) if san else "crash %d" % rc)
            key = "%s:%s" % (job.key, d if d in [x[12:] for x in fl] else (fl[0][12:] if fl else "memory"))
            key = re.sub(r"\s+", "_", key)
            ctx.violation(key, "%s: %s (at %s:%s); replay: %s" % (job.name, d, os.path.basename(loc.get("file", "?")), loc.get("line", "?"), what),
                          dict(job=job.name, harness=job.harness, defs=job.defs, inputs=vals, native_rc=rc,
                               native_stdout=ro[-3000:], native_stderr=re_[-3000:], failed=d))
            done += 1
            if done >= 3:
                return
        else:
            last = "counterexample to '%s' does not reproduce natively (rc=%d %s)" % (d, rc, (ro + re_)[-400:])
    if not done:
        raise CheckError("%s: %s" % (job.name, last))


def run_jobs(ctx, jobs, workers=8):
    ctx.assume("C arithmetic as on x86-64 (LP64, arithmetic right shift); CBMC 6.11 and its SAT back end are trusted")
    def one(j):
        try:
            run_job(ctx, j)
        except CheckError as e:
            ctx.error(e)
        except Exception as e:
            import traceback
            ctx.error("%s: %s" % (j.name, traceback.format_exc()))
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, jobs))
