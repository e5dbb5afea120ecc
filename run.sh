#!/bin/bash
# run.sh ID quick|thorough: builds the monitors against /repo's working tree and runs one check.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Any other exit: no answer.
cd "$(dirname "$0")" || exit 2
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p evidence replays
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
if ! cargo build --release --offline --manifest-path harness/Cargo.toml --target-dir harness/target >"$log" 2>&1; then
    echo "ERROR: the monitors do not build against /repo" >&2
    grep -A12 '^error' "$log" | head -60 >&2
    exit 2
fi
# C09 first with the library not optimised, as in a debug build
plain=""
if [ "$id" = C09 ]; then
    if ! cargo build --profile plain --features plain --offline --manifest-path harness/Cargo.toml --target-dir harness/target-plain >"$log" 2>&1; then
        echo "ERROR: the monitors do not build against /repo without optimisation" >&2
        grep -A12 '^error' "$log" | head -60 >&2
        exit 2
    fi
    count=8000
    [ "$tier" = thorough ] && count=200000
    plain="$(mktemp -d)"
    trap 'rm -rf "$log" "$plain"' EXIT
    harness/target-plain/plain/ncmon run --prop "$id" --tier "$tier" --seed "$seed" --count "$count" --out "$plain" --replays replays >"$log" 2>&1
    rc=$?
    if [ $rc -ne 0 ]; then
        cat "$log"
        [ -f "$plain/$id.json" ] && cp "$plain/$id.json" "evidence/$id.json"
        exit $rc
    fi
fi
harness/target/release/ncmon run --prop "$id" --tier "$tier" --seed "$seed" --out evidence --replays replays
rc=$?
if [ -n "$plain" ] && [ $rc -eq 0 ]; then
    python3 tools/merge.py "evidence/$id.json" "$plain/$id.json" "library not optimised"
    rc=$?
fi
if { [ "$id" = C23 ] || [ "$id" = C24 ]; } && [ $rc -eq 0 ]; then
    python3 tools/sanitize.py "$id" "$tier" "$seed"
    rc=$?
fi
exit $rc
