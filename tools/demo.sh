#!/bin/bash
# Builds a scratch copy of the tree in the current directory with demo.rs added as a test module and runs it.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
cp -a Cargo.toml Cargo.lock src "$w"/ || exit 3
mkdir -p "$w/target"
if [ -d target/debug ]; then cp -a target/debug "$w/target/"; rm -rf "$w/target/debug/incremental"; fi
# the first line of demo.rs names the module file it becomes a child of
at=$(sed -n '1s,^// child of ,,p' "$here/demo.rs")
cp "$here/demo.rs" "$w/$(dirname "$at")/vp_demo.rs" || exit 3
case "$at" in */mod.rs|src/lib.rs|src/main.rs) p= ;; *) p="#[path = \"vp_demo.rs\"] " ;; esac
printf "\n#[cfg(test)]\n%smod vp_demo;\n" "$p" >> "$w/$at"
cd "$w" || exit 3
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH" CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$w/target" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
timeout 250 cargo test --offline vp_demo > "$w/out.txt" 2>&1
rc=$?
grep -E '^(error|test |thread|assertion|  left|  right)|panicked|test result' "$w/out.txt" | head -40
if [ $rc -eq 0 ] && grep -q 'vp_demo::.* ok' "$w/out.txt"; then exit 0; fi
exit 1
