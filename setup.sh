#!/bin/bash
# builds the driver once, and checks that the specification can be read
cd "$(dirname "$0")/harness" || exit 2
CARGO_TARGET_DIR="$PWD/target" cargo build --offline --quiet --bin csdriver || exit 2
CARGO_TARGET_DIR="$PWD/target" cargo build --offline --quiet --bin cshelpers   # needed by C22 and C23 only
java -version >/dev/null 2>&1 || exit 2
