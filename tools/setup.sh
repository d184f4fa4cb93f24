#!/bin/bash
# Offline: build the symbolic executor and the std it links the harnesses with.
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
cargo build --release --offline --manifest-path "$V/engine/Cargo.toml" --target-dir "$V/build/engine"
bash "$V/tools/mkstd.sh" "$V/build/sysroot"
