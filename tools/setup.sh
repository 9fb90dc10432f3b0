#!/bin/sh
# Builds the framework from the committed files (the checks rebuild what /repo changes).
set -e
cd "$(dirname "$0")/.."
CARGO_TARGET_DIR=$PWD/target cargo build --offline --quiet --manifest-path harness/Cargo.toml
if [ -d extract ]; then CARGO_TARGET_DIR=$PWD/target cargo build --offline --quiet --release --manifest-path extract/Cargo.toml; fi
