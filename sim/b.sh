#!/bin/bash
# development build
cd /verif/sim && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=/verif/sim/wrap.sh cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${1:-60}
