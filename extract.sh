#!/bin/bash
# extract.sh CONFIG OUT.json : CONFIG in serde borsh serde-release
set -e
here="$(cd "$(dirname "$0")" && pwd)"
cfg="$1"; out="$(realpath -m "$2")"; work="$(realpath -m "${3:-/tmp/verif-work}")"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WORKSPACE_WRAPPER RUSTC_WRAPPER CARGO_BUILD_RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
mkdir -p "$work"
drv="$work/driver-target/release/mirdump"
if [ ! -x "$drv" ] || [ "$here/driver/src/main.rs" -nt "$drv" ]; then
  RUSTFLAGS= CARGO_TARGET_DIR="$work/driver-target" cargo build --release --offline --manifest-path "$here/driver/Cargo.toml" >"$work/driver.log" 2>&1 || { cat "$work/driver.log" >&2; exit 2; }
fi
case "$cfg" in
  both) feat=serde,borsh; prof=;;
  serde) feat=serde; prof=;;
  borsh) feat=borsh; prof=;;
  serde-release) feat=serde; prof=--release;;
esac
td="$work/target-$cfg"
# a private copy of the roots crate, so that the lock file and build output stay out of /verif
rc="$work/roots-$cfg"; mkdir -p "$rc/src"; cp "$here/roots/Cargo.toml" "$rc/"; cp "$here/roots/Cargo.lock" "$rc/" 2>/dev/null || true; cp "$here"/roots/src/*.rs "$rc/src/"
[ "$cfg" = both ] && { CARGO_TARGET_DIR="$td" cargo check --offline --features "$feat" --manifest-path "$rc/Cargo.toml" 2>&1 | tail -40; exit "${PIPESTATUS[0]}"; }
rm -f "$out"
# force re-analysis of the roots crate and of the library even when cargo believes them fresh (it compares times, not contents)
rm -rf "$td"/*/build/rabe-bn "$td"/*/build/roots "$td"/*/.fingerprint/rabe-bn-* "$td"/*/.fingerprint/roots-*
touch "$rc/src/lib.rs"
MIRDUMP_CRATE=roots MIRDUMP_OUT="$out" RUSTC_WRAPPER="$drv" RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no --cap-lints=allow" CARGO_TARGET_DIR="$td" \
  cargo check $prof --offline --features $feat --manifest-path "$rc/Cargo.toml" >"$work/extract-$cfg.log" 2>&1 || { tail -60 "$work/extract-$cfg.log" >&2; exit 3; }
test -s "$out"
