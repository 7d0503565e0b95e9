#!/bin/bash
# builds the executable contracts against /repo's working tree
export RUSTUP_TOOLCHAIN=1.72.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/racw
cd "$(dirname "$0")" && exec cargo build --offline "$@"
