#!/bin/sh
# Builds main.rs (beside this file) against optlib in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
t=$(mktemp -d /tmp/optdemo.XXXXXX) || exit 2
trap 'case "$t" in /tmp/optdemo.*) rm -rf "$t";; esac' EXIT
mkdir "$t/src"
cp "$d"/*.rs "$t/src/"
[ -f "$r/Cargo.lock" ] && cp "$r/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
optlib = { path = "$r/optlib" }
[workspace]
T
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" cargo build --offline -q || exit 2
timeout 120 "$t/target/debug/demo"
