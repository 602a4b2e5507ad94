#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--sub name] [--scale f]   |   check.sh replay <file>
# Rebuilds the harness against /repo's current working tree and runs one property.
# exit 0: held on everything explored; 1: VIOLATION line printed; anything else: an error.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTUP_TOOLCHAIN=stable RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_TARGET_DIR
export MBVERIF_DIR=$here MBVERIF_FD3=1
mkdir -p "$here/target"
log=$here/target/build.$$.log
if ! flock "$here/target/.lock" cargo build --offline --locked --quiet \
        --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/target" >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"
    echo "check.sh: the harness does not build against /repo"; exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
[ "$(stat -c %s "$here/target/stderr.log" 2>/dev/null || echo 0)" -gt 5000000 ] && : >"$here/target/stderr.log"
# the library prints to stdout; the verdict goes to fd 3
# per-thread stack large enough for deep trees; OS limits keep a runaway case from taking the box down
exec timeout -k 10 "${MBVERIF_TIMEOUT:-5000}" "$here/target/debug/mbverif" "$@" 3>&1 1>/dev/null 2>>"$here/target/stderr.log"
