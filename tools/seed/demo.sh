#!/bin/bash
# Run in the repository. Builds main.rs against it in a scratch directory; it fails if the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here"/*.rs "$t/src/"
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
cat >"$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mvdparser = { path = "$repo" }
ktxstats = "*"
T
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$t/target
unset RUSTFLAGS
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$t" && timeout 250 cargo run --offline --quiet
