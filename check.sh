#!/bin/bash
# check.sh ID [quick|thorough]            run the check of one property
# check.sh ID --replay CASE SEED TIER     run one case again, with its history
# check.sh --build                        build only
# Builds the monitors against /repo's working tree, runs the workload in 8 processes,
# exit 0 held / 1 violated / 2 no verdict.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$here/evidence" "$here/work" "$here/target"
log="$here/work/build.$$.log"
if ! cargo build --release --offline --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
    grep -E '^error' -A6 "$log" | head -60
    echo "INCONCLUSIVE: the monitors do not build against /repo (full log: $log)"
    exit 2
fi
rm -f "$log"
bin="$here/target/release/ddmon"
[ "$1" = "--build" ] && exit 0
id="$1"
if [ "$2" = "--replay" ]; then
    out="$here/work/replay.$$.txt"
    "$bin" --replay "$id" "${5:-Quick}" "${4:-1}" "$3" "$out"
    rc=$?
    cat "$out"
    exit $rc
fi
# findings recorded as not repaired (there are none while the file lists only "fixed:" lines)
grep -E "^KNOWN-FINDING: property=$id " "$here/known_findings.txt" 2>/dev/null
# 4 GB of address space for each process: runaway recursion or allocation ends that process only
ulimit -v 4194304
ulimit -c 0
exec "$bin" "$id" "${2:-${VERIF_TIER:-quick}}"
