#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the simulation from /repo's working tree, search, report.
prop="$1"
tier="${2:-quick}"
cd /verif/sim || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=/verif/sim/wrap.sh CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC
crates="vfs utils parsa parsa_python parsa_python_cst logging_config licensing"
mkdir -p target
exec 9>target/.check-lock
flock 9
# The stamp makes the build depend on the content of the tree, not on file times.
stamp=$( { cat wrap.sh rt/src/*.rs drive/src/*.rs zsim/src/*.rs */Cargo.toml; for c in $crates; do find "/repo/crates/$c" -type f -not -path '*/target/*' | sort | xargs sha256sum; done; sha256sum /repo/Cargo.toml; } | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.stamp 2>/dev/null)" != "$stamp" ]; then
  if [ -d target/debug ]; then
    for c in $crates zsim_rt drive zsim; do cargo clean --offline -q -p "$c" 2>/dev/null; done
  fi
  if ! cargo build --offline -q >target/build.log 2>&1; then
    tail -30 target/build.log
    echo "check.sh: the simulation does not build"
    exit 2
  fi
  echo "$stamp" >target/.stamp
fi
flock -u 9
exec ./target/debug/zsim check --property "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --verif /verif
