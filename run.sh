#!/bin/bash
# usage: run.sh setup | run.sh ID quick|thorough
# Builds the checks (and the conversion tool) from /repo's working tree and runs one of them.
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR
dir="$(cd "$(dirname "$0")" && pwd)"
target="$dir/target"

build_harness() {
    (cd "$dir/harness" && cargo build --release --offline -q --target-dir "$target")
}
build_tool() {
    (cd / && CARGO_INCREMENTAL=0 CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
        cargo build --release --offline --locked -q --manifest-path /repo/Cargo.toml \
        -p lumberjack-utils --bin lumberjack-conversion --target-dir "$target/cli")
}

case "$1" in
setup)
    build_harness && build_tool
    ;;
*)
    build_harness >&2 || { echo "the checks cannot be built" >&2; exit 2; }
    if [ "$1" = C01 ]; then
        build_tool >&2 || { echo "the conversion tool cannot be built" >&2; exit 2; }
    fi
    export VERIF_DIR="$dir"
    exec "$target/release/ljmc" check "$1" "${2:-quick}"
    ;;
esac
