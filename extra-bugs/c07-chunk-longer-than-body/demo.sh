#!/bin/bash
# Builds demo.rs against the crate in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
open-dis-rust = { path = "$repo" }
bytes = "1.8.0"
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$d" || exit 2
cargo build --offline -q 2> "$d/log" || { cat "$d/log"; exit 2; }
timeout 120 "$d/target/debug/demo"
