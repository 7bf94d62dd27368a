#!/bin/bash
# check.sh run ID | replay FILE | build : builds the harness against /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true
export RUST_BACKTRACE=0
LOG="$PWD/work/build.log"; mkdir -p work
build() {
  cargo build --offline --locked --quiet --manifest-path harness/Cargo.toml --target-dir target/h >"$LOG" 2>&1 || { cat "$LOG" >&2; echo "harness build failed" >&2; return 1; }
  case " $* " in *" C25 "*|*" C26 "*|*" C28 "*|*" C29 "*|*" all "*)
    cargo build --offline --locked --quiet --manifest-path /repo/Cargo.toml --bin lumberjack-conversion --target-dir target/cli >"$LOG" 2>&1 || { cat "$LOG" >&2; echo "converter build failed" >&2; return 1; } ;;
  esac
}
# coverage-guided search: thorough tier, checks that run in one process
guided() {
  [ "${VERIF_TIER:-quick}" = thorough ] || return 0
  case "$1" in C25|C26|C28|C29) return 0 ;; esac
  RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares --cfg fuzzing -Ccodegen-units=1" \
    cargo build --offline --locked --quiet --release --target x86_64-unknown-linux-gnu --manifest-path fuzz/Cargo.toml --target-dir target/fz >>"$LOG" 2>&1 \
    && export GUIDED_BIN="$PWD/target/fz/x86_64-unknown-linux-gnu/release/guided" \
    || echo "coverage-guided search left out: it does not build" >&2
}
case "${1:-}" in
  build) build all || exit 2 ;;
  run) build "$2" || exit 2; guided "$2"; exec target/h/debug/pbt run "$2" ;;
  replay) build all || exit 2; exec target/h/debug/pbt replay "$2" ;;
  *) echo "usage: check.sh run ID | replay FILE | build" >&2; exit 2 ;;
esac
