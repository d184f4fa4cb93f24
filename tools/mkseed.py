"""mkseed(id, property, edits, deps, demo_rs, needs, breaks): write /verif/seeded/<id> (development helper; no check uses it)."""
import json, os, subprocess
DEMO = '''#!/bin/bash
# usage: cd /repo && bash demo.sh ; builds demo.rs against the tree and runs it with everything under a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/cache"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
EOF
cd "$d" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/.build" cargo build -q --offline 2> "$d/log" || { cat "$d/log"; exit 3; }
export XDG_CACHE_HOME=$d/cache TMPDIR=$d
timeout 100 "$d/.build/debug/demo"
'''
CLI = '''#!/bin/bash
# usage: cd /repo && bash demo.sh ; builds the command line tool of the tree and runs demo.rs with it in a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/cache" "$d/w"
CARGO_NET_OFFLINE=true cargo build -q --offline -p logreduce-cli --target-dir "$d/.build" 2> "$d/log" || { cat "$d/log"; exit 3; }
rustc --edition 2021 -o "$d/demo" "$here/demo.rs" || exit 3
export XDG_CACHE_HOME=$d/cache TMPDIR=$d/w BIN=$(find "$d/.build/debug" -maxdepth 1 -type f -executable -name 'logreduce*' | head -1)
timeout 100 "$d/demo"
'''
NAMES = {}
def crate(c):
    import re
    t = open("/repo/%s/Cargo.toml" % c).read()
    return re.search(r'^name\s*=\s*"([^"]+)"', t, re.M).group(1)

def mkseed(id, prop, edits, deps, demo, needs, breaks, crates=""):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    if deps == ["cli!"]:
        open(d + "/demo.sh", "w").write(CLI)
    else:
        dl = "\n".join('%s = { path = "$repo/%s" }' % (crate(c), c) for c in deps) + ("\n" + crates if crates else "")
        open(d + "/demo.sh", "w").write(DEMO % dl)
    open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
