#!/bin/bash
# check.sh ID | check.sh --replay FILE      (tier: VERIF_TIER=quick|thorough)
# Rebuilds the harness against /repo's working tree and decides one property.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF=$V MC_KNOWN=$V/KNOWN_FINDINGS.txt CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
T=$V/target
export RUST_BACKTRACE=0

scn= ; words= ; prof=
if [ "${1:-}" = --replay ]; then
    get() { sed -n "s/^$1=//p" "$2" | head -1; }
    ID=$(get property "$2"); prof=$(get profile "$2"); scn=$(get scenario "$2"); words=$(get words "$2")
else
    ID=${1:?usage: check.sh ID | check.sh --replay FILE}
fi
case $ID in
    M*) bin=mem ;; D*) bin=delay ;; B*) bin=biquad ;; E*) bin=env ;; O*) bin=osc ;; F*) bin=float ;; S*|C*) bin=misc ;; X*) bin=cross ;;
    *) echo "unknown property $ID" >&2; exit 2 ;;
esac

# Sources may carry old time stamps (restored checkouts): never trust cargo's memory of the crate under test.
find "$T" -path '*/.fingerprint/embedded-audio-tools-*' -prune -exec rm -rf {} + 2>/dev/null

log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
build() {
    local out
    case $1 in
        release) out=$T/release/$bin
            cargo build --release --offline --bin $bin --manifest-path $V/mc/Cargo.toml --target-dir $T >"$log" 2>&1 ;;
        checked) out=$T/checked/$bin
            cargo build --profile checked --offline --bin $bin --manifest-path $V/mc/Cargo.toml --target-dir $T >"$log" 2>&1 ;;
        asan) out=$T/asan/x86_64-unknown-linux-gnu/release/$bin
            RUSTFLAGS=-Zsanitizer=address cargo +nightly build --release --offline --bin $bin \
                --manifest-path $V/mc/Cargo.toml --target x86_64-unknown-linux-gnu --target-dir $T/asan >"$log" 2>&1 ;;
    esac
    if [ $? -ne 0 ]; then
        tail -40 "$log" >&2
        echo "MACHINERY ERROR: the $1 build failed" >&2
        exit 2
    fi
    export MC_BIN_$1="$out"
}
build release
for p in $("$MC_BIN_release" --needs $ID); do
    [ $p = release ] || build $p
done
if [ -n "$prof" ]; then
    v=MC_BIN_$prof
    "${!v}" --replay-here $ID "$scn" "$words"
    exit $?
fi
"$MC_BIN_release" $ID
exit $?
