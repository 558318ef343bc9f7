#!/bin/bash
# usage: check.sh ID | check.sh --replay FILE | check.sh --build
# Rebuilds the harness from /repo's current working tree and decides one property.
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
R="$(realpath -m -- "${2:-x}")"
D="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$D" CARGO_TARGET_DIR="$D/target"
cd "$D/harness" || exit 2
mkdir -p "$D/work"
if ! cargo build --release --offline --locked >"$D/work/build.$$.log" 2>&1; then
    tail -60 "$D/work/build.$$.log"
    echo "INCONCLUSIVE: the harness does not build"
    exit 2
fi
rm -f "$D/work/build.$$.log"
case "$1" in
    --build) exit 0 ;;
    --replay) exec "$D/target/release/stprop" replay "$R" ;;
    *) exec "$D/target/release/stprop" check "$1" ;;
esac
