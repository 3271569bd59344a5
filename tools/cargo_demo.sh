#!/bin/bash
# Builds demo.rs against the crates in the current directory and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)" || exit 99
trap 'rm -rf "${t:?}"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
rubymap = { path = "$repo/rubymap" }
ruby_traits = { path = "$repo/ruby_traits" }
hashbrown = { path = "$repo/hashbrown", default-features = false }
[profile.dev]
debug = false
[workspace]
EOF
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2026-05-18 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cd "$t" || exit 99
cargo run --offline --quiet
