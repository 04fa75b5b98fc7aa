#!/bin/bash
# Builds the fact extractor and warms its dependency cache; run once in a fresh sandbox.
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
(cd driver && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../.build/driver RUSTUP_TOOLCHAIN=nightly cargo build --release --offline --quiet)
bash facts.sh .build/warm
rm -rf .build/warm
