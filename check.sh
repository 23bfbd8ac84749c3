#!/bin/bash
# usage: check.sh build | check.sh ID [quick|thorough]
# Builds the harness against /repo's current working tree and runs one check.
# Exit: 0 held, 1 violation (VIOLATION line), 2 no verdict (does not build, out of time, ...).
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
unset CARGO_RESOLVER_LOCKFILE_PATH CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
TARGET="$VERIF_DIR/target"
mkdir -p "$TARGET" || exit 2

build() {
    exec 9> "$TARGET/build.lock"
    flock 9
    # Cargo goes by modification times; what counts here is content.
    local now
    now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$now" != "$(cat "$TARGET/source.sha" 2>/dev/null)" ]; then
        rm -f "$TARGET/source.sha"
        cargo clean --release --offline --quiet --manifest-path "$VERIF_DIR/harness/Cargo.toml" \
            --target-dir "$TARGET" -p indexer -p harness -p program > /dev/null 2>&1
    fi
    if ! cargo build --release --offline --locked --manifest-path "$VERIF_DIR/harness/Cargo.toml" \
        --target-dir "$TARGET" > "$TARGET/build.log" 2>&1; then
        grep -A12 '^error' "$TARGET/build.log" | head -60
        echo "ERROR the harness does not build against /repo (log: $TARGET/build.log)"
        return 1
    fi
    echo "$now" > "$TARGET/source.sha"
    # The command-line program, which only C30 runs.
    if [ "$1" = C30 ] || [ "$1" = build ]; then
        rm -f "$TARGET/release/program"
        if ! cargo build --release --offline --locked --manifest-path "$VERIF_DIR/harness/Cargo.toml" \
            --target-dir "$TARGET" -p program > "$TARGET/program.log" 2>&1; then
            grep -A12 '^error' "$TARGET/program.log" | head -60
            echo "ERROR the command-line program does not build (log: $TARGET/program.log)"
            [ "$1" = C30 ] && return 1
        fi
    fi
    flock -u 9
}

build "$1" || exit 2
[ "$1" = build ] && exit 0
exec "$TARGET/release/harness" run "$1" "${2:-${VERIF_TIER:-quick}}"
