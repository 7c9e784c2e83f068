#!/bin/bash
# Run in a checkout of the repository: exits 0 when it behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sneturfahi = { path = "$repo" }
[workspace]
END
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" CARGO_TERM_COLOR=never
cd "$t" && cargo run --offline --quiet
