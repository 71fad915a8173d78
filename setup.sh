#!/bin/bash
# Builds everything once (offline), to show that it builds.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
(cd mc && cargo build --offline --bins && cargo build --offline --profile wrap --bins && cargo build --offline --profile deep --bin deep) || exit 1
(export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu; cd stackmc && cargo build --offline --bins) || exit 1
(export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu; unset RUSTC_WRAPPER; cd mirimc && cargo build --offline --bin drive && MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks" cargo miri run --offline --bin worker -- 16 quick I000) || exit 1
