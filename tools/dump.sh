#!/bin/bash
# Builds the compiler driver if needed, then type-checks /repo's current working
# tree with it and leaves the MIR dump in $1. Nothing of /repo is executed.
set -u
out=$1
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
bd=$here/.build
mkdir -p "$bd"
exec 9>"$bd/lock"
flock 9
sysroot=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$sysroot/lib
drv=$bd/driver/debug/mirdump
if [ ! -x "$drv" ] || [ "$here/driver/src/main.rs" -nt "$drv" ]; then
  (cd "$here/driver" && CARGO_TARGET_DIR=$bd/driver cargo +nightly build --offline -q) || exit 2
fi
tgt=$bd/target
# never let cargo's freshness cache skip the analysis of the current sources
if [ -d "$tgt" ]; then
  find "$tgt" -depth \( -name 'packetc*' -o -name 'libpacketc*' \) -exec rm -rf {} + 2>/dev/null
fi
rm -f "$out"
(cd "$repo" && RUSTC_WORKSPACE_WRAPPER=$drv MIRDUMP_OUT=$out CARGO_TARGET_DIR=$tgt CARGO_INCREMENTAL=0 RUSTFLAGS= CARGO_ENCODED_RUSTFLAGS= \
  cargo +nightly check --offline --locked --lib --bins -q >"$bd/check.log" 2>&1)
rc=$?
if [ $rc -ne 0 ] || [ ! -s "$out" ]; then
  cat "$bd/check.log" >&2
  exit 2
fi
