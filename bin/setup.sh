#!/bin/bash
# builds the executor; everything derived from /repo is rebuilt by each check
set -e
cd "$(dirname "$0")/../engine"
RUSTUP_TOOLCHAIN=1.95 CARGO_NET_OFFLINE=true cargo build --release --offline
