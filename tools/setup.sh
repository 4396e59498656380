#!/bin/sh
# builds the extractor and the bounded-search crate (each check does this itself when needed)
set -e
cd "$(dirname "$0")/.."
mkdir -p .build
CARGO_TARGET_DIR=.build/vx cargo build --offline --quiet --manifest-path extractor/Cargo.toml
CARGO_TARGET_DIR=.build/harness cargo build --offline --quiet --manifest-path harness/Cargo.toml || true
