#!/bin/bash
# Regenerate models.json from lib.rs (needed only after editing lib.rs): dumps its MIR with the driver.
set -e
cd "$(dirname "$0")"
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
T=$(mktemp -d)
FACTS_CRATES=stdmodels FACTS_OUT=$T FACTS_DESCEND="none|" FACTS_STOP="x|x" "$(ls ../build/driver/*/factdump | head -1)" --crate-name stdmodels --edition 2021 \
  --crate-type lib --emit=metadata --out-dir "$T" --sysroot "$(rustc +nightly --print sysroot)" -Zmir-opt-level=0 -Zalways-encode-mir lib.rs
mv "$T/stdmodels.json" models.json
rm -rf "$T"
