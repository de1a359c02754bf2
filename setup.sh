#!/bin/bash
set -eu
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
source "$VERIF_DIR/env.sh"
python3 "$VERIF_DIR/freshen.py"
cd "$VERIF_DIR/mc" && cargo build --offline 2>&1 | tail -3
