#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=${VERIF_TOOLCHAIN:-1.70.0} CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
for c in mc mcu conc; do
  [ -d "$here/$c" ] || continue
  if [ $c = conc ]; then python3 "$here/tools/inst.py" /repo/banyan "$here/conc/inst/banyan" 1; fi
  (cd "$here/$c" && cargo build --release --offline) && continue
  [ $c = conc ] || exit 1
  python3 "$here/tools/inst.py" /repo/banyan "$here/conc/inst/banyan" 0
  (cd "$here/$c" && cargo build --release --offline) || exit 1
done
# the command line tool, for P30
CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$here/mc/target/cli" cargo build --locked --offline --manifest-path /repo/Cargo.toml -p banyan-utils --bin banyan-cli || exit 1
