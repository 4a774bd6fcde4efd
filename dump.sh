#!/bin/bash
# usage: dump.sh OUT.json TARGETDIR [CARGO OPTIONS]
set -e
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V/roots"
RUSTFLAGS="--cfg pddl_verif -Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Zmir-enable-passes=-CheckAlignment,-CheckNull" MIRDUMP_OUT="$1" LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTC_WORKSPACE_WRAPPER="$V"/mirdump/target/debug/mirdump cargo +nightly build --lib --offline --target-dir "$2" "${@:3}"
