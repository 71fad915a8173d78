#!/bin/bash
# run.sh PROPERTY quick|thorough: builds what decides the property from /repo and runs it.
cd "$(dirname "$0")" || exit 2
P=$1; T=${2:-quick}
case $P in
  T11) BIN=deep;;
  T12) BIN=work;;
  T*|M01) BIN=trees;;
  M04) BIN=drive;;
  S*|M02|M03) BIN=skip;;
  R*|A*) BIN=misc;;
  B*) BIN=bp;;
  L*) BIN=lsm;;
  C*) BIN=stackmc;;
  *) echo "unknown property $P" >&2; exit 2;;
esac
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p evidence replays
DIR=mc; PROFILE=dev; OUT=debug
if [ $BIN = deep ]; then PROFILE=deep; OUT=deep; fi
if [ $BIN = stackmc ]; then DIR=stackmc; export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu; fi   # loom
if [ $BIN = drive ]; then DIR=mirimc; export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu; unset RUSTC_WRAPPER; fi   # miri
build() { (cd $DIR && cargo build --offline --profile $1 --bin $BIN) >"replays/build-$P.log" 2>&1 || { tail -40 "replays/build-$P.log" >&2; exit 2; }; }
build $PROFILE
ARGS="--property $P --tier $T --evidence evidence/$P.json --replays replays"
case $BIN-$P in
  # twice: with overflow checks and debug assertions, and without, as a released program is built
  bp-B05) ;;
  trees-*|skip-*|misc-*|bp-*|lsm-L01|lsm-L02)
    ./$DIR/target/$OUT/$BIN $ARGS --keep "replays/first-$P" || exit $?
    build wrap
    exec ./$DIR/target/wrap/$BIN $ARGS --after "replays/first-$P";;
esac
exec ./$DIR/target/$OUT/$BIN $ARGS
