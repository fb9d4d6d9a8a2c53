#!/bin/bash
# run.sh <property> [--replay FILE | --family NAME | -v]    explore one property
# run.sh build                                              build only
# The harness is rebuilt from /repo's current working tree on every run.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL RUST_BACKTRACE CARGO_BUILD_TARGET
export MC_VERIF="$V"
ID="$1"
shift
mkdir -p "$V/mc/target" "$V/evidence"
LOG="$V/mc/target/build-$$.log"
TARGET="$V/mc/target"
build() (
    flock 9
    cd "$V/mc" && cargo build --release --offline >"$LOG" 2>&1
) 9>"$V/mc/target/.lock"
# C18 schedules threads at every step of the crate and C23 counts them: it is built with callbacks for both.
build_steps() {
    MC_STEPS=1 RUSTC_WRAPPER="$V/mc/steps-rustc.sh" CARGO_TARGET_DIR="$V/mc/target/steps" build
}
if [ "$ID" = C18 ] || [ "$ID" = C23 ]; then
    build_steps && TARGET="$V/mc/target/steps"
elif [ "$ID" = build ]; then
    build_steps; build
else
    build
fi
RC=$?
if [ $RC -ne 0 ]; then
    echo "the harness does not build against /repo:" >&2
    tail -40 "$LOG" >&2
    rm -f "$LOG"
    exit 2
fi
rm -f "$LOG"
[ "$ID" = build ] && exit 0
# Replays run in the tier they were found in.
if [ "$1" = --replay ] && [ -f "$2" ]; then
    T="$(sed -n 's/^tier //p' "$2")"
    [ -n "$T" ] && export VERIF_TIER="$T"
fi
ulimit -v 26000000
ulimit -c 0
exec "$TARGET/release/mc" "$ID" "$@"
