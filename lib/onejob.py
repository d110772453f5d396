"""debug helper: run a single llsym job in-process.  usage: onejob.py CHECK substring [profile]"""
import sys, os, re, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import vpcore
vpcore.main = lambda *a, **k: None
spec = importlib.util.spec_from_file_location("chk", V + "/checks/%s.py" % sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
tier = os.environ.get("VERIF_TIER", "quick")
js = [j for j in m.jobs(tier) if re.search(sys.argv[2], j.name)]
import vpll, queue
for j in js:
    q = queue.Queue()
    if len(sys.argv) > 3:
        import cProfile, pstats
        pr = cProfile.Profile()
        pr.enable()
    getattr(j, 'target', vpll._job)(j, q)
    if len(sys.argv) > 3:
        pr.disable()
        pstats.Stats(pr).sort_stats("tottime").print_stats(22)
    r = q.get()
    print(j.name, "wall %.1f" % r["wall"], {k: v for k, v in r["stats"].items() if k not in ("used",)})
    print("  wits", [(w["w"], w["ok"], w["why"][:200] if not w["ok"] else "") for w in r["wits"]], "err", r["error"])
    for f in r["fails"]:
        print("  FAIL", f["msg"], f["ok"], f["what"], str(f["vals"])[:200], f["out"][-200:] if not f["ok"] else "", f["err"][-300:] if not f["ok"] else "")
