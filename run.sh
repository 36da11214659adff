#!/bin/bash
# run.sh PROPERTY quick|thorough   |   run.sh replay FILE   |   run.sh build
# Builds the harness from /repo's current working tree and runs one check.
cd "$(dirname "$0")" || exit 3
V=$PWD
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
# Third-party dependencies that the repository's own build already compiled are reused.
if [ -w /repo/target ]; then export CARGO_TARGET_DIR=/repo/target; else export CARGO_TARGET_DIR=$V/target; fi
[ -n "$VERIF_TARGET" ] && export CARGO_TARGET_DIR=$VERIF_TARGET
log=$(mktemp)
if ! cargo build --offline --locked --manifest-path "$V/harness/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "ERROR: harness does not build" >&2; exit 3
fi
rm -f "$log"
[ "$1" = build ] && exit 0
export VERIF_SEED=${VERIF_SEED:-1} VERIF_KNOWN=$V/known_findings.jsonl VERIF_OUT=$V/evidence
# scratch in memory when there is room, else on disk
B=/tmp
[ -w /dev/shm ] && [ "$(df --output=avail /dev/shm 2>/dev/null | tail -1)" -gt 1000000 ] 2>/dev/null && B=/dev/shm
T=$(mktemp -d $B/vharness.XXXXXX) || exit 3
export VERIF_SCRATCH=$T TMPDIR=$T HOME=$T/home
mkdir -p "$T/home"
trap 'chmod -R u+rwX "$T" 2>/dev/null; rm -rf "$T"' EXIT
"$CARGO_TARGET_DIR/debug/vharness" "$@"
rc=$?
case $rc in 0|1) exit $rc;; *) echo "ERROR: check ended with status $rc" >&2; exit 3;; esac
