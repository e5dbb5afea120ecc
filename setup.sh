#!/bin/bash
# Builds the monitors once (each check builds again what has changed since).
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p evidence replays
cargo build --release --offline --manifest-path harness/Cargo.toml --target-dir harness/target 2>&1 | grep -E '^error|Finished' || exit 1
cargo build --profile plain --features plain --offline --manifest-path harness/Cargo.toml --target-dir harness/target-plain 2>&1 | grep -E '^error|Finished'
exit "${PIPESTATUS[0]}"
