#!/bin/bash
# dump.sh OUT.json [features]: compile probe + /repo with nightly, write MIR IR
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"; feat="$2"
tgt="$(mktemp -d /tmp/probe.XXXXXX)"
trap 'rm -rf -- "$tgt"' EXIT
sysroot="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$sysroot/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
export RUSTUP_TOOLCHAIN=nightly DUMP_OUT="$out" CARGO_TARGET_DIR="$tgt" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zalways-encode-mir -Coverflow-checks=on -Cdebug-assertions=on --cap-lints=allow"
unset CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
export RUSTC_WORKSPACE_WRAPPER="$here/dumper/target/debug/dumper"
cp -r "$here/probe" "$tgt/src"
cd "$tgt/src"
cargo check --offline --quiet ${feat:+--no-default-features --features "$feat"} 2>"$tgt/log" || { cat "$tgt/log" >&2; exit 3; }
test -s "$out"
