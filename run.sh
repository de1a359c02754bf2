#!/bin/bash
# usage: run.sh CRATE PROPERTY [args...]   builds CRATE against /repo's working tree and runs one check
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
source "$VERIF_DIR/env.sh"
crate=$1; prop=$2; shift 2
python3 "$VERIF_DIR/freshen.py" || exit 2
log="$VERIF_DIR/build/$crate.log"
if ! (cd "$VERIF_DIR/mc" && cargo build --offline -q -p "$crate") >"$log" 2>&1; then
  echo "BUILD FAILED"; grep -E -A12 '^error' "$log" | head -60; exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$crate" "$prop" "$@"
