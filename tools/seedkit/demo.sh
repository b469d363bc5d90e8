#!/bin/bash
# Run in /repo after its build. Exit 0: the property holds for this demonstration; 1: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
lock=$repo/Cargo.lock
[ -f "$lock" ] || lock=/opt/vp/Cargo.lock
cp "$lock" "$work/Cargo.lock"
if grep -q runtime-async-std "$here/features" 2>/dev/null; then
    feat='default-features = false, features = ["runtime-async-std"]'
else
    feat='default-features = false, features = ["runtime-tokio"]'
fi
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
async-smtp = { path = "$repo", $feat }
async-std = { version = "1.11", features = ["unstable", "attributes"] }
tokio = { version = "1", features = ["rt", "macros", "io-util", "time"] }

[workspace]
T
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target"
if ! cargo build --offline >"$work/log" 2>&1; then
    cat "$work/log"
    exit 3
fi
timeout 60 ./target/debug/demo
rc=$?
[ $rc = 0 ] && exit 0
echo "demo: exit $rc"
exit 1
