#!/bin/sh
# builds the harness once (each check builds it again from /repo's current tree)
set -e
cd "$(dirname "$0")/../harness"
mkdir -p ../build ../evidence
CARGO_TARGET_DIR=../build/target cargo build --release --offline --quiet
