#!/bin/bash
# builds demo.rs (beside this script) against ./stable-fs and runs it: exit 0 = behaviour as promised
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/sfsdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "sfsdemo"
version = "0.1.0"
edition = "2021"
[dependencies]
stable-fs = { path = "$REPO/stable-fs" }
ic-stable-structures = "*"
[profile.dev]
debug = 0
[workspace]
T
cd "$W"
CARGO_TARGET_DIR="${SFSDEMO_TARGET:-$W/target}" timeout 280 cargo run --offline -q
