#!/bin/bash
# build.sh CRATE...  -- builds simulators from the current tree of /repo
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2026-05-18 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$root/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET RTSIM_MIRROR HEAPSIM_MIRROR FIBERSIM_MIRROR SOCKSIM_MIRROR WAITSIM_MIRROR
for c in "$@"; do
    (cd "$root/$c" && cargo build --release --offline --quiet 2>&1) && continue
    # single functions could not be taken from the current tree: use the
    # recorded copies of them
    if [ "$c" = rtsim ] && (cd "$root/$c" && RTSIM_MIRROR=1 cargo build --release --offline --quiet 2>&1); then
        echo "rtsim: safepoint taken from the recorded copy" >&2
        continue
    fi
    if [ "$c" = heapsim ] && (cd "$root/$c" && HEAPSIM_MIRROR=1 cargo build --release --offline --quiet 2>&1); then
        echo "heapsim: cells and native methods taken from the recorded copy" >&2
        continue
    fi
    if [ "$c" = fibersim ]; then
        ok=
        for m in executor methods fiber enumerator enum_methods enumerator,enum_methods methods,executor fiber,methods,executor,enumerator,enum_methods; do
            if (cd "$root/$c" && FIBERSIM_MIRROR=$m cargo build --release --offline --quiet 2>&1); then
                echo "fibersim: $m taken from the recorded copy" >&2
                ok=1
                break
            fi
        done
        [ -n "$ok" ] && continue
    fi
    if [ "$c" = socksim ] && (cd "$root/$c" && SOCKSIM_MIRROR=1 cargo build --release --offline --quiet 2>&1); then
        echo "socksim: waiting and closing taken from the recorded copy" >&2
        continue
    fi
    if [ "$c" = waitsim ] && (cd "$root/$c" && WAITSIM_MIRROR=1 cargo build --release --offline --quiet 2>&1); then
        echo "waitsim: waiting methods taken from the recorded copy" >&2
        continue
    fi
    echo "build of $c failed" >&2
    exit 2
done
exit 0
