#!/bin/bash
# Builds the small program in demo/ against /repo (with native stand-ins for the JavaScript
# bindings, in shim/) inside a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$here/shim" "$work/" || exit 2
unset CARGO_RESOLVER_LOCKFILE_PATH CARGO_TARGET_DIR RUSTFLAGS
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
cd "$work/demo" || exit 2
cargo build --offline --locked --quiet --target-dir "$work/target" 2> "$work/log" || { cat "$work/log"; exit 2; }
timeout 120 "$work/target/debug/demo"
