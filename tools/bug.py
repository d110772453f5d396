#!/usr/bin/env python3
"""Planting helper.  bug.py confirm ID... : in /repo: demo passes clean; apply; build; stable tests pass; demo fails; undo.
bug.py check ID...: apply; run the property's quick check; undo.  bug.py mk ID: write patch.diff from /repo's diff and undo."""
import json, os, subprocess, sys, time
V = "/verif"
def sh(c, cwd="/repo", t=1200):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")
def undo():
    sh("git checkout -- .")
def clean():
    r, o = sh("git status --porcelain")
    assert not o.strip(), o
cmd, ids = sys.argv[1], sys.argv[2:]
if cmd == "mk":
    os.makedirs(V + "/seeded/" + ids[0], exist_ok=True)
    r, o = sh("git diff")
    assert o.strip()
    open(V + "/seeded/%s/patch.diff" % ids[0], "w").write(o)
    undo()
elif cmd in ("confirm", "check"):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["passed"]) if cmd == "confirm" else ()
    for i in ids:
        d = V + "/seeded/" + i
        prop = json.load(open(d + "/meta.json"))["property"]
        clean()
        try:
            if cmd == "confirm":
                r0, o0 = sh("timeout 300 bash %s/demo.sh" % d)
                if r0: print(i, "DEMO FAILS ON CLEAN", o0[-800:]); continue
            r, o = sh("git apply %s/patch.diff" % d); assert r == 0, o
            if cmd == "confirm":
                rb, ob = sh("bash /opt/vp/build.sh")
                rt, ot = sh("bash /opt/vp/test.sh /tmp/bugtest.json")
                res = json.load(open("/tmp/bugtest.json"))
                ps = set(res.get("passed") or [k for k, v in res.get("tests", {}).items() if v in ("pass", "passed")])
                miss = base - ps
                r1, o1 = sh("timeout 300 bash %s/demo.sh" % d)
                print(i, "build", rb, "missing", sorted(miss)[:5], "demo clean 0, patched", r1, o1.strip()[-200:], flush=True)
            else:
                t = time.time()
                rc, oc = sh("VERIF_TIER=quick bin/check " + prop, cwd=V)
                print(i, prop, "exit", rc, "%.0fs" % (time.time() - t), "CAUGHT" if rc == 1 and "VIOLATION property=" + prop in oc else "MISSED", "\n   ".join(oc.strip().split("\n")[-4:])[:900], flush=True)
        finally:
            undo()
