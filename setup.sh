#!/bin/bash
# Builds the harness (all property binaries) offline from the committed files and /repo.
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# hash seeds baked into macro output come from here: fixed, so that every run generates the same programs
export CONST_RANDOM_SEED=${CONST_RANDOM_SEED:-1}
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
. ../tools/fresh.sh
exec cargo build --offline --quiet --bins
