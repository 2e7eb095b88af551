#!/bin/bash
# bash check.sh ID [quick|thorough]   builds the simulator from /repo's working tree and runs the check of one property
# bash check.sh build                 builds only
# bash check.sh replay ID FILE        replays a recorded violation
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.build" RUSTFLAGS="--cap-lints warn"
export VERIF_SEED="${VERIF_SEED:-1}"

build() { # crate dir
  local log; log="$(mktemp)"
  if ! (cd "$1" && cargo build --offline --locked) >"$log" 2>&1; then
    tail -60 "$log" >&2
    rm -f "$log"
    echo "check.sh: $1 does not build" >&2
    exit 2
  fi
  rm -f "$log"
}
bin_of() {
  case "$1" in
    C0[1-9]|C10) echo simcore ;;
    *) echo sim ;;
  esac
}
exe_of() { [ "$1" = simcore ] && echo .build/debug/simcore || echo .build/debug/redsim; }

case "${1:-}" in
  build)
    build simcore
    build sim
    exit 0 ;;
  replay)
    b="$(bin_of "$2")"; build "$b"
    exec "$(exe_of "$b")" replay "$3" ;;
  "")
    echo "usage: check.sh ID [quick|thorough]" >&2
    exit 2 ;;
esac
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
mkdir -p evidence replays
b="$(bin_of "$1")"
build "$b"
exec "$(exe_of "$b")" check "$1"
