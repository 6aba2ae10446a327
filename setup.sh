#!/bin/bash
# Builds every harness once, offline.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p evidence "$CARGO_TARGET_DIR"
freshen
cargo build --manifest-path mc/Cargo.toml --release --offline --locked --bins 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
