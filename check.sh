#!/bin/bash
# check.sh <PROPERTY>      rebuild from /repo's working tree and decide one property
# check.sh setup           build everything once (no result depends on it)
# check.sh replay <file>   run a recorded violation again and print its history
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough, default quick)
set -u
V="$(cd "$(dirname "$0")" && pwd)"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
# users build the crate as a dependency, where lints never stop the build
export RUSTFLAGS="--cap-lints warn"
export RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$V/target" CARGO_TERM_COLOR=never
SEED="${VERIF_SEED:-1}"
TIER="${VERIF_TIER:-quick}"
LOG="$V/target/log"
mkdir -p "$LOG" "$V/evidence" "$V/replays"

source "$V/lib.sh"

case "${1:-}" in
  setup)
    build_monitor && python3 "$V/drive.py" setup
    ;;
  replay)
    build_monitor || exit 2
    exec "$V/target/debug/ica-monitor" replay --file "$2"
    ;;
  C23|C24|C26|C27|C28|C29)
    # the artifact is compared with the contract as it runs in its developers' tests
    [ "$1" = C27 ] && MON_CONFIG="--config profile.dev.package.cw-ica-controller.debug-assertions=true"
    build_monitor || exit 2
    exec python3 "$V/drive.py" "$1"
    ;;
  C*)
    build_monitor || exit 2
    exec "$V/target/debug/ica-monitor" check --prop "$1" --tier "$TIER" --seed "$SEED" --out "$V"
    ;;
  *)
    echo "usage: check.sh PROPERTY | setup | replay FILE" >&2
    exit 2
    ;;
esac
