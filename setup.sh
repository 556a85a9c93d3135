#!/bin/bash
# builds the MIR dumper and dumps the MIR of the standard library models (offline)
set -e
cd "$(dirname "$0")"
(cd driver && cargo build --release --offline)
S=$(rustc +nightly --print sysroot)
T=$(mktemp -d)
mkdir -p models/target
(cd models && LD_LIBRARY_PATH=$S/lib MIRDUMP_OUT="$T/models.json" MIRDUMP_CRATE=models RUSTC_WORKSPACE_WRAPPER=../driver/target/release/mirdump CARGO_TARGET_DIR="$T/t" cargo +nightly check --offline --lib)
mv "$T/models.json" models/target/models.json
rm -rf "$T"
