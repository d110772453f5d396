"""replay of a counterexample or witness on the real Python modules: pyreplay.py JOB.json"""
import importlib.util, json, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import pyapi
job = json.load(open(sys.argv[1]))
out = os.fdopen(os.dup(1), "w")
sys.stdout = open(os.devnull, "w")
spec = importlib.util.spec_from_file_location("harness", job["harness"])
sys.path.insert(0, os.path.dirname(job["harness"]))


def say(s):
    out.write(s + "\n")
    out.flush()


h = importlib.util.module_from_spec(spec)
spec.loader.exec_module(h)
a = pyapi.Replay(job["params"], job["vals"], say)
try:
    getattr(h, job["fn"])(a)
except SystemExit:
    pass
except BaseException as e:
    say("REPLAY-FAIL exception %s" % type(e).__name__)
    traceback.print_exc()
