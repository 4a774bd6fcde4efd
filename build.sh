#!/bin/bash
# usage: build.sh WORKDIR [plain]   builds from the current working tree of /repo, into WORKDIR:
#   mir.json   the monomorphic MIR of the whole reachable program (mirdump, rustc_public)
#   replay     the real parsers behind a line protocol
# plain: the same for the crate without its feature "interning", as mir-plain.json and replay-plain
set -e
V="$(cd "$(dirname "$0")" && pwd)"
W="$1"
mkdir -p "$W"
export CARGO_NET_OFFLINE=true
replay() {
  (cd "$V/roots" && RUSTFLAGS="--cfg pddl_verif" cargo build --offline --locked --bin replay --target-dir "$W/tgt-replay" "${@:2}" >"$W/replay.log" 2>&1) && cp "$W/tgt-replay/debug/replay" "$W/$1"
}
dump() {
  rm -rf "$W"/tgt-dump/debug/.fingerprint/roots-* "$W"/tgt-dump/debug/build/roots "$W/$1"
  "$V/dump.sh" "$W/$1" "$W/tgt-dump" "${@:2}" >"$W/dump.log" 2>&1 && test -s "$W/$1" || { cat "$W/dump.log" >&2; wait; exit 2; }
}
{ replay replay && { test "$2" != plain || replay replay-plain --no-default-features; }; } &
R=$!
(cd "$V/mirdump" && LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib cargo +nightly build --offline --target-dir "$V/mirdump/target" >"$W/mirdump.log" 2>&1) || { cat "$W/mirdump.log" >&2; wait $R; exit 2; }
dump mir.json
test "$2" != plain || dump mir-plain.json --no-default-features
wait $R || { cat "$W/replay.log" >&2; exit 2; }
