#!/usr/bin/env python3
"""Run the checks on edits that keep the behaviour (refactors/*.diff): they have to stay quiet.
usage: refrun.py [--checks C01,C02] [--no-test] [NAME...]"""
import glob, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notest = "--no-test" in args
args = [a for a in args if a != "--no-test"]
only = None
if "--checks" in args:
    i = args.index("--checks"); only = args[i + 1].split(","); del args[i:i + 2]
checks = [c["property"] if "property" in c else c["property_id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if not only else only
bad = 0
for d in sorted(glob.glob(V + "/refactors/*.diff")):
    name = os.path.basename(d)[:-5]
    if args and not any(name.startswith(a) for a in args):
        continue
    subprocess.check_call(["git", "-C", "/repo", "apply", d])
    try:
        if not notest:
            r = subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/refrun.json", shell=True, capture_output=True, text=True)
            base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
            print(name, "tests", "ok" if r.returncode == 0 else "rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-1500:]), flush=True)
        for c in checks:
            t = time.time()
            r = subprocess.run(["python3", V + "/tools/check.py", c, "--tier", "quick"], capture_output=True, text=True)
            if r.returncode:
                bad += 1
                print(name, c, "rc", r.returncode, (r.stdout + r.stderr)[-800:], flush=True)
            else:
                print(name, c, "quiet", round(time.time() - t), "s", flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
print("alarms:", bad)
