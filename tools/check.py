#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Builds the symbolic executor, a std with a constant hash, and the harness together with /repo's
current crates as LLVM IR; explores every case of the property with the solver; replays each
counterexample (and a sample of the explored paths) natively against the real code."""
import json, os, re, shutil, subprocess, sys, time, glob, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(V, "build")
TRIPLE = "x86_64-unknown-linux-gnu"
CORES = 8
CRATES = {"iterator": "logreduce-iterator", "tokenizer": "logreduce-tokenizer", "index": "logreduce-index",
          "model": "logreduce-model", "cache": "logreduce-cache", "httpdir": "httpdir", "report": "logreduce-report",
          "zuul": "zuul-build"}


class Broken(Exception):
    pass


def sh(cmd, env=None, cwd=None, ok=True, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if ok and r.returncode != 0:
        raise Broken("%s failed:\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--manifest-path", V + "/engine/Cargo.toml", "--target-dir", B + "/engine"])
    return B + "/engine/release/symx"


def build_std():
    sh(["bash", V + "/tools/mkstd.sh", B + "/sysroot"])


def workspace(pkg, cfg, native):
    d = "%s/ws-%s-%s" % (B, pkg, "native" if native else "sym")
    os.makedirs(d, exist_ok=True)
    deps = ""
    for c in cfg["deps"]:
        name, path, extra = c, None, ""
        if isinstance(c, dict):
            name, path, extra = c["name"], c["path"].replace("$V", V).replace("$REPO", REPO), c.get("extra", "")
        else:
            path = "%s/%s" % (REPO, c)
            t = open(path + "/Cargo.toml").read()
            name = re.search(r'^name\s*=\s*"([^"]+)"', t, re.M).group(1)
        deps += '%s = { path = "%s"%s }\n' % (name, path, extra)
    for k, v in cfg.get("crates", {}).items():
        deps += "%s = %s\n" % (k, v)
    patches = cfg.get("native_patch" if native else "patch", [])
    pt = "".join('%s = { path = "%s/stubs/%s" }\n' % (p, V, p) for p in patches)
    profile = ('[profile.release]\nopt-level = 2\nlto = "fat"\npanic = "abort"\ncodegen-units = 1\n'
               'overflow-checks = true\ndebug = "line-tables-only"\n') if not native else \
        '[profile.dev]\nopt-level = 1\noverflow-checks = true\ndebug = "line-tables-only"\nincremental = false\n'
    t = ('[package]\nname = "h-%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[[bin]]\nname = "h"\npath = "%s/harness/%s/main.rs"\n'
         '[dependencies]\nsymrt = { path = "%s/symrt" }\n%s[patch.crates-io]\n%s%s') % (pkg, V, pkg, V, deps, pt, profile)
    old = None
    p = d + "/Cargo.toml"
    if os.path.exists(p):
        old = open(p).read()
    if old != t:
        open(p, "w").write(t)
        shutil.copy(REPO + "/Cargo.lock", d + "/Cargo.lock")
    return d


def build_sym(pkg, cfg):
    d = workspace(pkg, cfg, False)
    for f in glob.glob("%s/target/%s/release/deps/h-*.ll" % (d, TRIPLE)):
        os.unlink(f)
    flags = "--sysroot %s/sysroot --cfg symx --cap-lints allow -C no-vectorize-loops -C no-vectorize-slp" % B
    r = sh(["cargo", "rustc", "--offline", "--release", "--target", TRIPLE, "--bin", "h", "--", "--emit=llvm-ir,obj"],
           env={"RUSTFLAGS": flags, "RUSTC_BOOTSTRAP": "1", "CARGO_NET_OFFLINE": "true"}, cwd=d, ok=False)
    ll = glob.glob("%s/target/%s/release/deps/h-*.ll" % (d, TRIPLE))
    errs = re.findall(r"^error(?!: (?:linking|could not compile)).*", r.stdout, re.M)
    if len(ll) != 1 or errs:
        raise Broken("building the %s harness failed:\n%s" % (pkg, r.stdout[-6000:]))
    return ll[0]


def build_native(pkg, cfg):
    d = workspace(pkg, cfg, True)
    sh(["cargo", "build", "--offline", "--bin", "h"], env={"CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "--cap-lints allow"}, cwd=d)
    return d + "/target/debug/h"


def replay(exe, arg, hexin, timeout=20):
    scratch = "%s/scratch-%d-%d" % (B, os.getpid(), threading.get_ident())
    os.makedirs(scratch, exist_ok=True)
    env = {"SYM_REPLAY": hexin, "RUST_BACKTRACE": "0", "HOME": scratch, "XDG_CACHE_HOME": scratch, "TMPDIR": scratch, "PATH": "/usr/bin:/bin"}
    try:
        r = subprocess.run([exe, str(arg)], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known():
    out = []
    p = V + "/known-findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            if l.strip() and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = int(a[a.index("--case") + 1]) if "--case" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    allcfg = json.load(open(V + "/checks.json"))
    cfg = allcfg["checks"][prop]
    pkg = cfg["pkg"]
    pc = allcfg["packages"][pkg]
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        fe = ex.submit(build_engine)

        def sym():
            build_std()
            return build_sym(pkg, pc)
        fs = ex.submit(sym)
        fn = ex.submit(build_native, pkg, pc)
        engine, ll, exe = fe.result(), fs.result(), fn.result()
    tb = time.time() - t0
    cases = [c for c in cfg["cases"] if (only is None and (tier == "thorough" or c.get("tier", "quick") == "quick")) or c["arg"] == only]
    # longest first; a case superseded by a deeper one is not repeated
    if tier == "thorough" and only is None:
        sup = {c.get("supersedes") for c in cases}
        cases = [c for c in cases if c["arg"] not in sup]
    root = "%s/run-%s-%s" % (B, prop, tier)
    shutil.rmtree(root, ignore_errors=True)
    budget = threading.Semaphore(CORES)
    lock = threading.Lock()

    def run(c):
        w = min(c.get("workers", 4), CORES)
        with lock:
            for _ in range(w):
                budget.acquire()
        try:
            out = "%s/%d" % (root, c["arg"])
            limit = c.get("time", 600 if tier == "quick" else 3000)
            cmd = [engine, "--ll", ll, "--arg", str(c["arg"]), "--out", out, "--time", str(limit), "--workers", str(w),
                   "--grace", str(c.get("grace", 5))]
            if c.get("steps"):
                cmd += ["--max-steps", str(c["steps"])]
            if c.get("all_z3", True):
                cmd.append("--all-z3")
            r = sh(cmd, ok=False, timeout=limit + 60)
            return c, out, r
        finally:
            for _ in range(w):
                budget.release()

    with ThreadPoolExecutor(CORES) as ex:
        results = list(ex.map(run, cases))

    problems, viols, rows = [], [], []
    for c, out, r in results:
        sys.stderr.write(r.stdout)
        res = {}
        if os.path.exists(out + "/result.json"):
            res = json.load(open(out + "/result.json"))
        rows.append((c, res))
        vs = [json.load(open(f)) for f in sorted(glob.glob(out + "/viol-*.json"))]
        viols += vs
        if not vs and r.returncode != 0:
            e = "".join(open(f).read() + "\n" for f in sorted(glob.glob(out + "/err-*.txt"))[:2])
            problems.append("case %d: exit %s %s %s" % (c["arg"], r.returncode, r.stdout[-500:], e[:3000]))
        elif not vs:
            for need in c.get("covers", []):
                if need not in res.get("covers", {}):
                    problems.append("case %d: vacuous, never reached: %s" % (c["arg"], need))

    # replay a sample of the explored paths on the real code
    validated, mism = 0, []
    if not viols:
        jobs = []
        for c, out, r in results:
            for f in sorted(glob.glob(out + "/path-*.txt"))[:24]:
                jobs.append((c["arg"], open(f).read()))
        with ThreadPoolExecutor(CORES) as ex:
            for (arg, h), (rc, o) in zip(jobs, ex.map(lambda j: replay(exe, *j), jobs)):
                if rc == 0 and "SYM-PATH-OK" in o:
                    validated += 1
                else:
                    mism.append((arg, h, rc, o))
    for arg, h, rc, o in mism:
        # the real build fails on an input the encoding accepted
        if rc == 77 or rc in (101, 134, -6, -11, "timeout"):
            viols.append({"kind": "native", "msg": (re.findall(r"SYM-ASSERT-FAILED: (.*)", o) or [o[-300:]])[0], "arg": arg, "input": h, "stack": []})
        else:
            problems.append("path of case %s not reproduced: rc=%s %s" % (arg, rc, o[-400:]))

    # replay the counterexamples
    confirmed, kn = [], []
    findings = [k for k in known() if k["property"] == prop and k.get("status") == "known"]
    for v in viols:
        rc, o = replay(exe, v["arg"], v["input"])
        bad = rc in (77, 101, 134, -6, -11, 139, "timeout") or (isinstance(rc, int) and rc < 0)
        if not bad:
            problems.append("counterexample not reproduced: %s %s (case %d) rc=%s\n%s\n%s" % (v["kind"], v["msg"], v["arg"], rc, o[-800:], "\n".join(v["stack"][:8])))
            continue
        v["native"] = {"rc": rc, "output": o[-1500:]}
        hit = [k for k in findings if k["case"] == v["arg"] and k["message"] in v["msg"] and k.get("stack", "") in " ".join(v["stack"])]
        (kn if hit else confirmed).append((v, hit))
    for v, h in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, h[0]["what"]))
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    for f in glob.glob("%s/evidence/replay/%s-*" % (V, prop)):
        os.unlink(f)
    lines = []
    for i, (v, _) in enumerate(confirmed):
        p = "%s/evidence/replay/%s-%d.json" % (V, prop, i)
        v["replay"] = "SYM_REPLAY=%s %s %d" % (v["input"], exe, v["arg"])
        json.dump(v, open(p, "w"), indent=1)
        print("  %s: %s (case %d)" % (v["kind"], v["msg"], v["arg"]))
        for s in v["stack"][:3]:
            print("     at " + s)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    tot = lambda k: sum(r.get(k, 0) for _, r in rows)
    funcs = {}
    for _, r in rows:
        for k, ls in r.get("repo_functions", {}).items():
            file, fn = k.split("\t")
            if file.startswith(REPO + "/"):
                funcs.setdefault(file[len(REPO) + 1:], {}).setdefault(fn, set()).update(ls)
    enc = {f: {fn: len(l) for fn, l in sorted(d.items())} for f, d in sorted(funcs.items())}
    if not confirmed and not problems and not kn and not enc:
        problems.append("no function of /repo was executed")
    samples = []
    for c, out, r in results[:6]:
        for f in sorted(glob.glob(out + "/path-*.txt"))[:2]:
            samples.append({"case": c["arg"], "what": c["what"], "input_hex": open(f).read()[:400]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths") + tot("killed"), "transitions": tot("steps"), "traces_validated_against_impl": validated,
            "samples": samples or [{"none": True}],
            "exhaustive": all(r.get("complete") for _, r in rows),
            "explanation": "states = symbolic paths (each standing for every input that satisfies its path condition), transitions = LLVM "
                           "instructions executed symbolically, traces = sampled path models replayed against a native build of the same tree",
            "functions_encoded": enc, "lines_encoded": sum(sum(d.values()) for d in enc.values()),
            "queries": {"z3": tot("z3_queries"), "z3_unsat": tot("z3_unsat"), "z3_sat": tot("z3_sat"), "byte_domain": tot("domain_queries"),
                        "cached": tot("cache_hits"), "domain_answers_cross_checked_with_z3": tot("cross_checked")},
            "solver_s": round(tot("z3_ns") / 1e9, 2), "assertions_discharged": tot("asserts"), "assertions_over_symbols": tot("assert_symbolic"),
            "cases": [{"arg": c["arg"], "bounds": c["what"], "complete": r.get("complete"), "paths": r.get("paths"),
                       "cut_by_assumption": r.get("killed"), "symbolic_bytes_max": r.get("max_vars"), "z3_queries": r.get("z3_queries"),
                       "wall_s": r.get("wall_s"), "reached": r.get("covers")} for c, r in rows],
            "build_s": round(tb, 1),
        },
        "assumptions": allcfg.get("assumptions", []) + pc.get("assumptions", []) + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
    }
    if only is None:
        json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for l in lines:
        print(l)
    if confirmed:
        return 1
    if problems:
        print("CHECK-ERROR property=%s" % prop)
        for p in problems:
            print(p)
        return 2
    print("OK property=%s tier=%s cases=%d paths=%d z3=%d validated=%d %.1fs" % (prop, tier, len(cases), tot("paths"), tot("z3_queries"), validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
