#!/bin/bash
# usage: run_extract.sh REPO OUT.json   -- dumps the MIR of REPO's crate (current working tree)
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH"
export CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS=-Zalways-encode-mir
export CARGO_INCREMENTAL=0; unset CARGO_PROFILE_DEV_DEBUG
V=$(cd "$(dirname "$0")" && pwd); B=$V/.build; REPO=$1; OUT=$2
mkdir -p "$B"
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
if [ ! -x "$B/sadriver" ] || [ "$V/driver/src/main.rs" -nt "$B/sadriver" ]; then
  rustc -O --edition 2021 "$V/driver/src/main.rs" -o "$B/sadriver.$$" && mv "$B/sadriver.$$" "$B/sadriver" || exit 3
fi
export CARGO_TARGET_DIR=$B/target
# the crate itself is always analysed afresh; its dependencies may be reused
[ -d "$B/target" ] && find "$B/target" -path "*/md-recover*" -type f -delete
[ -f "$OUT" ] && find "$OUT" -type f -delete
cd "$REPO" && RUSTC_WORKSPACE_WRAPPER=$B/sadriver SA_OUT=$OUT cargo check --offline --bin md-recover 2>"$B/extract.log" || { tail -40 "$B/extract.log" >&2; exit 3; }
[ -s "$OUT" ] || { tail -40 "$B/extract.log" >&2; exit 3; }
