#!/bin/bash
# developer build: bash sim/dev.sh [bin...]
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.91.1} CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${SIM_TARGET:-/verif/target} RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh
cd /verif/sim && cargo build --offline "$@" 2>&1
