#!/bin/bash
# Build a sysroot (in $1) whose std hashes every HashMap/HashSet key to the same value, so that
# symbolic keys are compared only by Eq.  core/alloc/... are the installed ones; only std is rebuilt.
set -eu
OUT=$1
TRIPLE=x86_64-unknown-linux-gnu
S=$(rustc --print sysroot)
L=$S/lib/rustlib/$TRIPLE/lib
D=$OUT/lib/rustlib/$TRIPLE/lib
[ -e "$OUT/done" ] && exit 0
rm -rf "$OUT"
mkdir -p "$D" "$OUT/src"
for f in "$L"/*.rlib "$L"/*.rmeta; do
  case $(basename "$f") in libstd-*|libtest-*|libproc_macro-*) ;; *) ln -s "$f" "$D/" ;; esac
done
cp -a "$S/lib/rustlib/src/rust/library" "$OUT/src/library"
python3 - "$OUT/src/library/std/src/hash/random.rs" <<'PY'
import sys
p=sys.argv[1]; s=open(p).read()
n=s.replace("        self.0.finish()\n","        0\n")
n=n.replace("        self.0.write(msg)\n","        let _ = msg;\n").replace("        self.0.write_str(s);\n","        let _ = s;\n")
assert n.count("        0\n")==1 and n!=s
open(p,'w').write(n)
PY
cd "$OUT/src/library/std"
RUSTC_BOOTSTRAP=1 STD_ENV_ARCH=x86_64 rustc --crate-name std --edition 2024 src/lib.rs --crate-type rlib \
  --target $TRIPLE --sysroot "$OUT" -Zforce-unstable-if-unmarked --cfg backtrace_in_libstd --cap-lints allow \
  -C opt-level=2 -C embed-bitcode=yes -C codegen-units=8 -C metadata=symx -C extra-filename=-symx -C panic=unwind \
  --cfg 'feature="panic-unwind"' -Zunstable-options \
  --extern panic_unwind $(for c in alloc core panic_abort unwind hashbrown std_detect libc cfg_if rustc_demangle; do echo --extern $c; done) \
  -L "$D" --out-dir "$D" --emit=link,metadata
rm -rf "$OUT/src"
touch "$OUT/done"
