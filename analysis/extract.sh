#!/bin/bash
# Build the driver (if needed) and dump the facts of /repo's current tree: extract.sh OUTDIR
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
OUT=$(mkdir -p "$1" && cd "$1" && pwd)
WORK=${BUILD_DIR:-$V/build}
mkdir -p "$WORK" "$OUT"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
SR=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SR/lib
(cd "$V/driver" && cargo +nightly build --quiet --offline --target-dir "$WORK/driver") >&2
TGT=$WORK/target
rm -rf "$TGT"/debug/.fingerprint/sneturfahi-* "$TGT"/debug/.fingerprint/macros-* "$TGT"/debug/build/sneturfahi "$TGT"/debug/build/macros
rm -f "$OUT/sneturfahi.json"
export FACTS_CRATES=${FACTS_CRATES:-sneturfahi} FACTS_OUT=$OUT
export FACTS_DESCEND="core|std::option::;core|<std::option::;core|std::result::;core|<std::result::;core|std::ops::Try;core|std::ops::control_flow;core|std::iter::;core|<std::iter::;core|std::cmp::;core|<;core|core::bool;core|std::convert::;core|std::ops::Fn;core|std::ops::function;core|std::mem::replace;core|std::mem::take;nom|"
export FACTS_STOP="std::fmt::;core::fmt::;std::slice::;core::slice::;core::str::;std::str::;std::array;core::array;std::panicking;core::num;std::num;std::alloc;std::ptr"
export RUSTFLAGS="-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -Zalways-encode-mir --cap-lints=warn -Awarnings"
export RUSTC_WORKSPACE_WRAPPER=$WORK/driver/debug/factdump
(cd "$REPO" && cargo +nightly check --quiet --offline --lib --target-dir "$TGT") >&2
[ -s "$OUT/sneturfahi.json" ] || { echo "no facts produced" >&2; exit 3; }
