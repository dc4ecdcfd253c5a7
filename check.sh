#!/bin/bash
# usage: check.sh ID        build the simulator against /repo's current tree, check one property
#        check.sh --build   build only
#        check.sh --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
log="$here/target/build.log"
mkdir -p "$here/target"
if ! (cd "$here/dsim" && cargo build --offline -q) >"$log" 2>&1; then
    echo "check.sh: the simulator does not build against the current tree:" >&2
    tail -40 "$log" >&2
    exit 2
fi
bin="$here/target/debug/dsim"
case "$1" in
    --build) exit 0 ;;
    --replay) exec "$bin" replay "$2" ;;
    *) exec "$bin" check "$1" ;;
esac
