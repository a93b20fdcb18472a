#!/bin/bash
# ./check.sh <ID> <quick|thorough> [<space> <case>]   -- builds the harness against /repo's working tree and runs it
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
ID=$1
TIER=$2
unset RUSTFLAGS
case "$ID" in
C01 | C02 | C03 | C04 | C05 | C06 | C07) F=alg ;;
C08 | C09) F=interval ;;
C10) F=conc ;;
C25) F=py ;;
C11 | C12 | C13 | C14 | C15 | C16 | C28) F=poly ;;
C17 | C18) F=factor ;;
C19) F=modint ;;
C20 | C21 | C29) F=traits ;;
C22 | C23 | C24 | C26 | C27)
  F=hooks
  export RUSTFLAGS="--cfg algebraics_verif"
  ;;
*)
  echo "ERROR: no check for $ID" >&2
  exit 2
  ;;
esac
export CARGO_TARGET_DIR="$PWD/harness/target/$F"
BUILD="--features $F --manifest-path harness/Cargo.toml"
BIN=algebraics-verif
if [ "$F" = conc ]; then
  BUILD="--manifest-path conc/Cargo.toml"
  BIN=algebraics-conc
fi
if [ "$F" = py ]; then
  # the module under test is the library's own cdylib, built for the interpreter running the driver
  BUILD="-p algebraics --manifest-path py/Cargo.toml"
  export PYO3_CONFIG_FILE="$PWD/py/pyo3-config.txt"
fi
if [ "$TIER" = thorough ]; then
  # long runs pay for a better optimised harness (modint is too expensive to optimise)
  case "$F" in
  modint | conc | py) ;;
  *)
    export CARGO_PROFILE_RELEASE_OPT_LEVEL=1
    CARGO_TARGET_DIR="$CARGO_TARGET_DIR-thorough"
    ;;
  esac
fi
LOG=$(mktemp)
if ! cargo build --release --offline --locked $BUILD >"$LOG" 2>&1; then
  tail -50 "$LOG" >&2
  rm -f "$LOG"
  echo "ERROR: the harness does not build against /repo" >&2
  exit 2
fi
rm -f "$LOG"
if [ "$F" = py ]; then
  export MODDIR="$CARGO_TARGET_DIR/module"
  mkdir -p "$MODDIR" && cp -f "$CARGO_TARGET_DIR/release/libalgebraics.so" "$MODDIR/algebraics.so" || exit 2
  exec /usr/bin/python3 -B py/mc.py run "$@"
fi
exec "$CARGO_TARGET_DIR/release/$BIN" run "$@"
