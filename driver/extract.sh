#!/bin/bash
# usage: extract.sh WORKDIR  -> WORKDIR/facts.json, from /repo's (or $VERIF_REPO's) current working tree
set -e
W=$1; REPO=${VERIF_REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$W"
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG
export RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
if [ ! -x "$W/drv" ] || [ "$HERE/main.rs" -nt "$W/drv" ]; then rustc -O --edition 2021 --cap-lints allow "$HERE/main.rs" -o "$W/drv"; fi
rm -f "$W/facts.json"
# the wrapper is skipped when cargo thinks the crate is fresh: drop the crate's own fingerprints
rm -rf "$W"/target/debug/.fingerprint/pydantic-core-* "$W"/target/debug/build/pydantic-core "$W"/target/debug/build/pydantic-core-*
cd "$REPO"
export CARGO_TARGET_DIR=$W/target VERIF_FACTS_CRATE=_pydantic_core VERIF_FACTS_OUT=$W/facts.json
export RUSTC_WORKSPACE_WRAPPER=$W/drv RUSTFLAGS="-Zmir-opt-level=0 -Zinline-mir=no --cap-lints allow"
cargo check --offline --lib >"$W/cargo.log" 2>&1 || { tail -60 "$W/cargo.log"; exit 3; }
test -s "$W/facts.json"
