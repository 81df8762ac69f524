#!/bin/bash
# Build every checker once (offline) so that the checks only rebuild what changed in /repo.
set -e
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
. mc/env.sh
export CARGO_TARGET_DIR="$VERIF_DIR/target"
cd mc
args=(); for p in "$@"; do args+=(-p "$p"); done
python3 fresh.py "$CARGO_TARGET_DIR"
cargo build --release --offline -q "${args[@]}"
