#!/bin/bash
# builds the conformance driver (both profiles) from /repo's working tree
set -e
cd "$(dirname "$0")/harness"
export CARGO_TARGET_DIR="$(dirname "$PWD")/target"
cargo build --offline --quiet --profile chk
cargo build --offline --quiet --profile release
