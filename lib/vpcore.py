"""Common plumbing of the checks: result bookkeeping, evidence file, known findings, exit codes."""
import json, os, sys, time, traceback, hashlib, tempfile, shutil, atexit, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
VENV_PY = "/opt/venv/bin/python"

_scratch = None
_lock = threading.Lock()


def scratch():
    """A scratch directory of this run, removed at exit."""
    global _scratch
    with _lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix="vpchk.")
            atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return _scratch


class CheckError(Exception):
    """The check could not decide (unknown, non-reproducing counterexample, encoding failure)."""


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.tier, self.seed = TIER, SEED
        self.lock = threading.Lock()
        self.functions, self.bounds, self.stubs, self.assumptions = [], [], [], []
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.witnesses = 0
        self.samples = []
        self.violations = []      # (key, message, payload)
        self.known_hits = []
        self.details = []
        self.errors = []
        self.known = load_known(pid)

    # -- bookkeeping -------------------------------------------------------
    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                setattr(self, k, getattr(self, k) + v)

    def function(self, *names):
        with self.lock:
            for n in names:
                if n not in self.functions:
                    self.functions.append(n)

    def bound(self, *txt):
        with self.lock:
            for t in txt:
                if t not in self.bounds:
                    self.bounds.append(t)

    def stub(self, *txt):
        with self.lock:
            for t in txt:
                if t not in self.stubs:
                    self.stubs.append(t)

    def assume(self, *txt):
        with self.lock:
            for t in txt:
                if t not in self.assumptions:
                    self.assumptions.append(t)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def detail(self, name, **kw):
        with self.lock:
            self.details.append(dict(name=name, **kw))

    def error(self, msg):
        with self.lock:
            self.errors.append(str(msg))
        print("CHECK-ERROR %s: %s" % (self.pid, msg), flush=True)

    # -- violations ---------------------------------------------------------
    def violation(self, key, msg, payload):
        """A replayed violation. key identifies the failing behaviour (for known findings)."""
        with self.lock:
            for k, txt in self.known:
                if k == key:
                    if k not in [x[0] for x in self.known_hits]:
                        self.known_hits.append((k, txt))
                        print("KNOWN-FINDING: property=%s %s" % (self.pid, txt), flush=True)
                    return
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (self.pid, hashlib.sha256(
                (key + msg).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, key=key, message=msg, replay=payload), f, indent=1, default=str)
            self.violations.append((key, msg, path))
            print("violation of %s [%s]: %s" % (self.pid, key, msg), flush=True)
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    # -- end ------------------------------------------------------------------
    def finish(self):
        cov = dict(
            functions_encoded=self.functions, bounds=self.bounds, stubs=self.stubs,
            queries_discharged=self.queries, solver_seconds=round(self.solver_s, 3),
            obligations=self.obligations, discharged=self.discharged,
            states=self.states, transitions=self.transitions,
            traces_validated_against_impl=self.validated,
            reachability_witnesses=self.witnesses,
            samples=self.samples, details=self.details,
            explanation="Bounded symbolic execution of the real code, decided by SAT/SMT: states = symbolic "
                        "states (SSA steps in the formula / completed symbolic paths), transitions = decided verification conditions "
                        "or branch decisions, traces_validated = solver models replayed on the real code.",
            errors=self.errors,
            known_findings=[k for k, _ in self.known_hits],
        )
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
        if self.violations:
            return 1
        if self.errors:
            return 3
        if self.witnesses == 0:
            print("CHECK-ERROR %s: no reachability witness was produced" % self.pid)
            return 3
        print("OK property=%s tier=%s queries=%d obligations=%d wall=%.1fs" % (
            self.pid, self.tier, self.queries, self.obligations, time.time() - self.t0), flush=True)
        return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):]
                key, _, txt = rest.partition(" ")
                assert key.startswith("key=")
                out.append((key[4:], txt))
    return out


def main(pid, fn, level="model_checking"):
    ctx = Ctx(pid, level)
    try:
        fn(ctx)
    except CheckError as e:
        ctx.error(e)
    except Exception:
        ctx.error(traceback.format_exc())
    rc = ctx.finish()
    sys.stdout.flush()
    os._exit_code = rc
    sys.exit(rc)
