#!/bin/bash
# check.sh <crate> <property> <tier> : rebuilds the harness against /repo's working tree and runs one check
here=$(cd "$(dirname "$0")" && pwd)
crate=$1; id=$2; tier=$3
export RUSTUP_TOOLCHAIN=${VERIF_TOOLCHAIN:-1.70.0} CARGO_NET_OFFLINE=true VERIF_ROOT=$here
unset RUSTFLAGS CARGO_TARGET_DIR
mkdir -p "$here/out" "$here/evidence"
cd "$here/$crate" || exit 3
log=$here/out/build-$crate-$id.log
build() {
  if [ "$crate" = conc ]; then
    # a copy of banyan in which std's locks and atomics are scheduling points too; the plain one if that does not compile
    python3 "$here/tools/inst.py" /repo/banyan "$here/conc/inst/banyan" 1 && cargo build --release --offline >"$log" 2>&1 && return 0
    echo "(without instrumentation of std)"
    python3 "$here/tools/inst.py" /repo/banyan "$here/conc/inst/banyan" 0 || return 1
  fi
  cargo build --release --offline >"$log" 2>&1
}
if ! build; then
  echo "BUILD FAILED ($crate)"; tail -40 "$log"; exit 3
fi
if [ "$id" = P30 ]; then
  # the tool under test
  if ! CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$here/mc/target/cli" cargo build --locked --offline --manifest-path /repo/Cargo.toml -p banyan-utils --bin banyan-cli >"$log" 2>&1; then
    echo "BUILD FAILED (banyan-cli)"; tail -40 "$log"; exit 3
  fi
fi
ulimit -v $((26*1024*1024)) 2>/dev/null
"$here/$crate/target/release/$crate" check "$id" "$tier"
