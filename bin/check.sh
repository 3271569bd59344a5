#!/bin/bash
# check.sh CRATE PROPERTY quick|thorough
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
export SIM_ROOT="$root" VERIF_TIER="$3"
export VERIF_SEED="${VERIF_SEED:-1}"
unset RUST_BACKTRACE
mkdir -p "$root/evidence" "$root/replays"
log="$(bash "$root/bin/build.sh" "$1" 2>&1)" || {
    echo "$log" | tail -n 60
    echo "HARNESS-ERROR: $1 does not build" >&2
    exit 2
}
exec "$root/target/release/$1" check "$2"
