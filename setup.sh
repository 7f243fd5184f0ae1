#!/bin/bash
# Builds the simulation once (every check rebuilds what changed by itself).
cd /verif/sim || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=/verif/sim/wrap.sh
cargo build --offline -q
