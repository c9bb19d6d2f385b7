#!/bin/bash
# Builds the analysis. Nothing of /repo is built: the analysis reads its source.
set -e
cd "$(dirname "$0")/sa"
CARGO_TARGET_DIR="$(pwd)/target" cargo build --release --offline --locked -q
