#!/bin/bash
# run with cwd at the repository: exit 0 when the behaviour holds, nonzero when it does not
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/"
cat >"$tmp/Cargo.toml" <<T
[package]
name = "orcmon"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
orc-format = { path = "$repo" }
protobuf = "2.28"
zstd = "0.12.4"
[profile.dev]
opt-level = 1
debug = 1
T
cd "$tmp" || exit 3
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cargo build --offline -q 2>"$tmp/err" || { cat "$tmp/err"; exit 4; }
RUN
