#!/bin/bash
# run.sh <property id> quick|thorough [--replay KEY]
# Builds the harness for the property from /repo's current tree and runs it.
# exit 0: held; 1: violation (VIOLATION line printed); 2: the harness did not build/run.
set -u
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 2
ID=${1:?usage: run.sh ID quick|thorough}; TIER=${2:-quick}; shift; shift || true
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$V/build/target" VERIF_DIR="$V" VERIF_SEED="${VERIF_SEED:-1}"
export RUSTFLAGS="-Awarnings"
mkdir -p build evidence/replays
if [ "$ID" = --build ]; then CRATE=$TIER; else
CRATE=$(awk -v id="$ID" '$1==id{print $2}' "$V/tools/checks.txt")
[ -n "$CRATE" ] || { echo "unknown property $ID" >&2; exit 2; }
fi
exec 9>build/lock; flock 9
python3 tools/mkws.py || exit 2
LOG="$V/build/$CRATE.log"
if ! (cd "hx/$CRATE" && cargo build --offline --locked --quiet) >"$LOG" 2>&1; then
    tail -n 60 "$LOG" >&2; echo "harness $CRATE does not build against /repo" >&2; exit 2
fi
flock -u 9
[ "$ID" != --build ] || exit 0
"$CARGO_TARGET_DIR/debug/$CRATE" "$ID" "$TIER" "$@"
rc=$?
# The code under test took the whole process down (stack overflow, abort): no case can survive that.
if [ $rc -eq 134 ] || [ $rc -eq 139 ]; then
    R="evidence/replays/$ID-crash.json"
    printf '{"property":"%s","key":"*","message":"the process died with signal %s","replay":"./run.sh %s %s"}\n' "$ID" "$((rc - 128))" "$ID" "$TIER" >"$R"
    echo "VIOLATION property=$ID replay=$R"
    exit 1
fi
[ $rc -eq 0 ] || [ $rc -eq 1 ] || { echo "harness $CRATE ended with $rc" >&2; exit 2; }
exit $rc
