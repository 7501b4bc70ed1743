#!/bin/bash
# build the analyser (offline)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
(cd engine/dumper && cargo +nightly build --offline --quiet)
(cd engine/absint && cargo build --release --offline --quiet)
test -x engine/dumper/target/debug/dumper && test -x engine/absint/target/release/absint
