#!/bin/bash
# Checks the tools are there and pre-builds the falsifiers' dependencies (each check rebuilds what changed).
set -e
cd "$(dirname "$0")/.."
verus --version >/dev/null
mkdir -p .build evidence
cd replay
export CARGO_TARGET_DIR="$(cd .. && pwd)/.build" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable
cargo build --offline --lib -q || true
