#!/bin/bash
# check.sh ID                 build against /repo's working tree, run the check of property ID
# check.sh replay ID FILE     run one recorded case again
# check.sh build              build only
# exit 0: held; 1: VIOLATION; 2: no verdict (build or harness error)
set -u
cd "$(dirname "$0")" || exit 2
export WPV_DIR="$PWD"
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# build [RUSTFLAGS CARGO-ARGS...]
build() {
  local log; log=$(mktemp) || return 2
  local flags="$1"; shift
  if ! (cd harness && RUSTFLAGS="--cfg verif_hooks $flags" cargo build --offline --locked "$@") >"$log" 2>&1; then
    echo "INCONCLUSIVE: the harness does not build against /repo"
    grep -E '^error' -A 12 "$log" | head -60
    rm -f "$log"
    return 2
  fi
  rm -f "$log"
}
plain() { build "" && bin=harness/target/debug/wpv; }
# the same program with AddressSanitizer (its run-time library comes with the pinned compiler)
asan() {
  RUSTC_BOOTSTRAP=1 build "--cfg asan -Zsanitizer=address" --target x86_64-unknown-linux-gnu --target-dir target/asan || return 2
  bin=harness/target/asan/x86_64-unknown-linux-gnu/debug/wpv
  export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:hard_rss_limit_mb=24000
}
id="${1:-}"; [ "$id" = replay ] && id="${2:-}"
case "$id" in
  "") echo "usage: check.sh ID"; exit 2 ;;
  build) plain && asan; exit $? ;;
  P26) asan || exit 2 ;;
  *) plain || exit 2 ;;
esac
ulimit -c 0
if [ "$1" = replay ]; then exec "$bin" replay "$2" "$3"; fi
# a runaway allocation must end this process tree, not the machine (thread stacks are reserved, not used; AddressSanitizer reserves
# far more than it uses)
[ "$id" = P26 ] || ulimit -v 28000000
"$bin" run "$id"
