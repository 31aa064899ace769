#!/bin/bash
# check.sh <ID>: builds the property's binary from /repo's current tree and runs it.
# Exit 0 held, 1 violated (VIOLATION line), anything else: the check itself could not decide.
cd "$(dirname "$0")/harness" || exit 2
id=$1
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# hash seeds baked into macro output come from here: fixed, so that every run generates the same programs
export CONST_RANDOM_SEED=${CONST_RANDOM_SEED:-1}
export VERIF_DIR=$(cd .. && pwd)
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. ../tools/fresh.sh
log=$(mktemp)
if ! cargo build --offline --quiet --bin "$bin" >"$log" 2>&1; then
  grep -v '^warning' "$log" | tail -40
  rm -f "$log"
  echo "ERROR: the harness for $id does not build against /repo"
  exit 2
fi
rm -f "$log"
exec target/debug/"$bin"
