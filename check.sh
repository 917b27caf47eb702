#!/bin/bash
# Usage: check.sh build | check.sh PROPERTY [skysim check arguments] | check.sh replay FILE [-v] | check.sh run PROFILE SEED [-v] | check.sh selftest
# Builds the simulator with the server as it is in /repo, then runs it.
cd "$(dirname "$0")/sim" || exit 2
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$PWD/target"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
mkdir -p target
exec 9>target/.lock && flock 9
# (contents, not times, decide whether the server has to be compiled again)
new=$(cd /repo && find server libsky sky-macros -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
old=$(cat target/.repo-hash 2>/dev/null)
[ "$new" = "$old" ] || touch skydsim/src/lib.rs skydsim/build.rs 2>/dev/null
if ! cargo build --offline -p skysim >target/.log 2>&1; then
    grep -E "^error" -A12 target/.log | head -80
    tail -5 target/.log
    echo "the simulator does not build"
    exit 2
fi
echo "$new" >target/.repo-hash
exec 9>&-
B=target/debug/skysim
case "$1" in
build) exit 0 ;;
replay | run | gen | soak | selftest) exec $B "$@" ;;
*)
    p="$1"
    shift
    exec $B check --prop "$p" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --out "$(cd .. && pwd)" "$@"
    ;;
esac
