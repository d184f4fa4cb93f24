#!/usr/bin/env python3
"""seedrun.py [--no-test] [--check] ID...: confirm planted bugs (development helper; no check uses it)."""
import json, subprocess, sys, time
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
for id in args:
    d = "/verif/seeded/" + id
    meta = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout == ""
    out = []
    if "--no-demo" not in sys.argv:
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); out.append("demo clean rc=%d" % r.returncode)
        if r.returncode: print(r.stdout[-600:], r.stderr[-600:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(id, "DOES NOT APPLY", a.stderr); continue
    try:
        if "--no-test" not in sys.argv:
            b = sh("bash /opt/vp/build.sh"); out.append("build rc=%d" % b.returncode)
            if b.returncode: print(b.stdout[-1000:], b.stderr[-2000:])
            sh("bash /opt/vp/test.sh /tmp/seed-t.json")
            t = json.load(open("/tmp/seed-t.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [x for x in st if x not in t["passed"]]
            out.append("tests broken: %s" % bad if bad else "tests ok")
        if "--no-demo" not in sys.argv:
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); out.append("demo bug rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-150:].strip().replace("\n", " / ")))
        if "--check" in sys.argv:
            t0 = time.time()
            r = sh("python3 tools/check.py %s --tier quick" % meta["property"], cwd="/verif")
            out.append("CHECK rc=%d %.0fs %s" % (r.returncode, time.time() - t0, [l for l in r.stdout.splitlines() if l.startswith(("VIOL", "  ", "CHECK"))][:3]))
    finally:
        sh("git -C /repo checkout -q -- .")
    print(id, meta["property"], "|", " | ".join(out), flush=True)
