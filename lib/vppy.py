"""Jobs of the Python back end: a harness function run symbolically by pysym in a child process; counterexamples and witnesses are replayed
on the real modules by /opt/venv/bin/python (lib/pyreplay.py)."""
import importlib.util, json, os, re, sys, time, traceback
from vpcore import VERIF, REPO, scratch, CheckError, VENV_PY
import vpll

HP = os.path.join(VERIF, "harness", "py")
LIBD = os.path.dirname(os.path.abspath(__file__))


class PJob:
    lang = "Python "

    def __init__(self, name, harness, fn, params=None, key=None, timeout=600, solver_timeout=300, max_paths=50000, functions=()):
        self.name, self.harness, self.fn, self.params = name, harness, fn, params or {}
        self.key, self.timeout, self.solver_timeout, self.max_paths, self.functions = key or name, timeout, solver_timeout, max_paths, list(functions)
        self.target = worker
        self.defs = self.repo_defs = None

    def info(self):
        return dict(job=self.name, harness=self.harness, fn=self.fn, params=self.params)

    def replay(self, vals):
        f = os.path.join(scratch(), "pyr.%d.%d.json" % (os.getpid(), time.time_ns()))
        with open(f, "w") as fh:
            json.dump(dict(harness=os.path.join(HP, self.harness), fn=self.fn, params=self.params, vals=vals), fh)
        rc, o, e, to = vpll.run_cmd([VENV_PY, os.path.join(LIBD, "pyreplay.py"), f], timeout=300, cwd=scratch())
        os.unlink(f)
        return rc, o, e


def worker(job, q):
    r = dict(error=None, fails=[], wits=[], stats={})
    t0 = time.time()
    try:
        import pysym
        sys.setrecursionlimit(20000)
        sys.path.insert(0, HP)
        spec = importlib.util.spec_from_file_location("harness_" + job.harness[:-3], os.path.join(HP, job.harness))
        h = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(h)
        ex = pysym.Explorer(job.solver_timeout * 1000, job.max_paths)
        a = pysym.SymApi(job.params, ex)
        fn = getattr(h, job.fn)
        if os.environ.get("VP_DEBUG"):
            ex.trace = True
        try:
            ex.run(a, fn)
        finally:
            r["stats"] = dict(paths=ex.paths, branches=ex.branches, obligations=ex.obligations, discharged=ex.discharged,
                              queries=ex.solver.queries, solver_s=ex.solver.time, checks=ex.checks, used=sorted(ex.used))
        for msg, vals in ex.failures:
            if any(f["msg"] == msg and f["ok"] for f in r["fails"]):
                continue
            rc, o, e = job.replay(vals)
            fl = [l[12:] for l in o.splitlines() if l.startswith("REPLAY-FAIL")]
            ok = bool(fl)
            r["fails"].append(dict(msg=msg, vals=vals, rc=rc, out=o[-3000:], err=e[-3000:], ok=ok, fl=fl, what=fl[0] if fl else "rc=%d" % rc))
        if not ex.failures:
            for w, vals in ex.witness.items():
                if vals is None:
                    r["wits"].append(dict(w=w, vals=None, ok=False, why="not reachable"))
                    continue
                rc, o, e = job.replay(vals)
                ok = ("REPLAY-HIT " + w) in o and "REPLAY-FAIL" not in o and rc == 0
                if not ok and rc == 0 and "REPLAY-FAIL" not in o and (ex.prefer or ex.nhid):
                    ok = True          # abstract: the free products or hash values of the model are not those of the real functions
                r["wits"].append(dict(w=w, vals=vals, ok=ok, why=(o + e)[-800:]))
    except CheckError as e:
        r["error"] = str(e)
    except BaseException as e:
        from symcore import Inconclusive
        import pysym
        r["error"] = ("inconclusive: %s" % e) if isinstance(e, (Inconclusive, pysym.Give)) else traceback.format_exc()
        if os.environ.get("VP_TB"):
            r["error"] = traceback.format_exc()
    r["wall"] = time.time() - t0
    q.put(r)


def run_jobs(ctx, jobs, workers=8):
    vpll.run_jobs(ctx, jobs, workers, "the real Python modules run under CPython with proxy integers, bytes and strings (lib/pysym.py); the proxies, the stubs "
                  "of outside packages and z3 are trusted; every counterexample and every witness is replayed on the real modules with concrete values")
