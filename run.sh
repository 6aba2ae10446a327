#!/bin/bash
# run.sh ID [--replay FILE] [--part NAME]: builds the harness of one property against /repo's working tree and runs it.
# Exit 0: held on everything explored; 1: a VIOLATION line was printed; 3: the check itself failed.
id=${1:?usage: run.sh ID}; shift
cd "$(dirname "$0")" || exit 3
. ./env.sh
bin=$(echo "$id" | tr 'A-Z' 'a-z')
mkdir -p evidence "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
freshen
log=$CARGO_TARGET_DIR/build-$bin.log
if ! cargo build --manifest-path mc/Cargo.toml --release --offline --locked --bin "$bin" >"$log" 2>&1; then
  grep -E '^(error|warning: unused)' -A6 "$log" | grep -A6 '^error' | head -40 >&2
  echo "check error: the harness of $id does not build against /repo" >&2
  exit 3
fi
flock -u 9
export MC_VERIF=$PWD
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
