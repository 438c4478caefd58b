#!/bin/bash
# Builds every harness binary in every build profile (offline), so that checks only rebuild what changed.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
M="--offline --manifest-path $V/mc/Cargo.toml"
cargo build --release $M --target-dir $V/target
cargo build --profile checked $M --target-dir $V/target
RUSTFLAGS=-Zsanitizer=address cargo +nightly build --release $M --target x86_64-unknown-linux-gnu --target-dir $V/target/asan
mkdir -p $V/evidence $V/replays
