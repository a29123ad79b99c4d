#!/bin/bash
# Builds the small program beside this script against the current tree and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/scratch"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
mopaq = { path = "$repo/mopaq" }
@DEPS@
T
export RUSTUP_TOOLCHAIN=1.86-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTC_WRAPPER=
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
cd "$w/scratch" || exit 2
cargo build --offline --quiet --manifest-path "$w/Cargo.toml" || exit 0
exec timeout 200 "$w/target/debug/demo"
