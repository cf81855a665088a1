#!/bin/bash
# Builds the simulator, and the code under test into it, from /repo as it is now.
# build.sh edges   everything the simulator runs in its own process
# build.sh plain   the dump program, the library that plays the operating system for it, and their driver
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$here/target/$1"
mkdir -p "$CARGO_TARGET_DIR" || exit 2
exec 8>"$CARGO_TARGET_DIR/.building"
flock 8
log="$CARGO_TARGET_DIR/build.log"
cd "$here" || exit 2
# whatever the time stamps say, what is tested is what /repo holds now
cargo clean --offline --release -p jbcrs >"$log" 2>&1
if [ "$1" = edges ]; then
    export RUSTC_WRAPPER="$here/rustc-wrap.sh"
    cargo build --offline --release --bin sim >>"$log" 2>&1 8>&-
else
    cargo build --offline --release >>"$log" 2>&1 8>&- &&
        gcc -O1 -shared -fPIC -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -o "$CARGO_TARGET_DIR/release/shim.so" shim/shim.c -ldl >>"$log" 2>&1
fi
rc=$?
if [ $rc -ne 0 ]; then
    echo "HARNESS ERROR: the simulator does not build:" >&2
    grep -E "^error" -A6 "$log" >&2 || tail -30 "$log" >&2
    exit 2
fi
