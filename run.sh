#!/bin/bash
# usage: run.sh <property> [quick|thorough]   runs one check against /repo's working tree
#        run.sh replay <file>                 re-runs one recorded execution
#        run.sh build                         builds only
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" RUST_BACKTRACE=0
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
mkdir -p target/debug replays evidence
exec 9>target/.lock
flock 9
# Dependencies /repo's own build has already compiled are taken over (same lock
# file, same features, same flags); whatever does not fit is compiled again.
if [ ! -e target/debug/deps ] && [ -d /repo/target/debug/deps ]; then
    for d in build deps .fingerprint; do
        [ -d /repo/target/debug/$d ] && cp -a /repo/target/debug/$d target/debug/
    done
fi
# the code under test is always compiled from the current tree
rm -rf target/debug/.fingerprint/openid4vci-* target/debug/.fingerprint/vmc-* \
       target/debug/deps/*openid4vci-* target/debug/deps/vmc-*
conf=()
[ -f /repo/.cargo/config.toml ] && conf=(--config /repo/.cargo/config.toml)
build() {
    cargo build --offline --locked "${conf[@]}" --manifest-path harness/Cargo.toml > target/build.log 2>&1
}
if ! build; then
    # not reusable after all: from scratch
    rm -rf "$VERIF_ROOT/target/debug"
    if ! build; then
        cat target/build.log >&2
        echo "check error: the harness does not build against /repo" >&2
        exit 2
    fi
fi
bin="$VERIF_ROOT/target/debug/vmc"
[ "$1" = build ] && exit 0
cp "$bin" "target/vmc.$$" && bin="$VERIF_ROOT/target/vmc.$$"
flock -u 9
trap 'rm -f "$bin"' EXIT
if [ "$1" = replay ]; then
    "$bin" replay "$2"
else
    timeout 850 "$bin" "$1" "${2:-${VERIF_TIER:-quick}}"
fi
