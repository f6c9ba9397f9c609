#!/bin/bash
# C19: the same workloads under AddressSanitizer + LeakSanitizer (Rust code and the C code of Zstandard, the latter also
# with UndefinedBehaviorSanitizer traps), under valgrind's memcheck, and in small under the Miri interpreter.
# usage: c19.sh build | run
set -u
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR MIRIFLAGS
TD="$PWD/target"
TRIPLE=x86_64-unknown-linux-gnu
NIGHTLY=+nightly
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
mkdir -p "$TD"
. ../build.inc

asan() {
  CC=clang CFLAGS="-fsanitize=address,undefined -fsanitize-trap=undefined -fno-omit-frame-pointer -g1" \
  RUSTFLAGS="-Awarnings -Zsanitizer=address -Zub-checks=yes -Cforce-frame-pointers=yes" \
  cargo $NIGHTLY $( [ "$1" = clean ] && echo "clean -p orc-format" || echo build ) --offline --release --target $TRIPLE --target-dir "$TD/asan"
}
# running no items builds the program and the interpreter's library
miri() {
  if [ "$1" = clean ]; then cargo $NIGHTLY miri clean --target-dir "$TD/miri"
  else RUSTFLAGS=-Awarnings MIRIFLAGS=-Zmiri-disable-isolation cargo $NIGHTLY miri run --offline --target-dir "$TD/miri" -- sanitizer-work miri 1 0 0 1 1 -; fi
}
release() { if [ "$1" = clean ]; then cargo clean --offline --release -p orc-format --target-dir "$TD"; else cargo build --offline --release --target-dir "$TD"; fi; }
build release release || exit 2
build asan asan || exit 2
# Miri may be unable to build or run the code; the other two then decide alone.
miri_ok=1; build miri miri || miri_ok=0
[ "${1:-run}" = build ] && exit 0

LOGS="$TD/c19-logs"
mkdir -p "$LOGS"; rm -f "$TD"/c19-logs/*
start=$(date +%s)
if [ "$TIER" = thorough ]; then NA=40000 TA=200 NV=4000 TV=320 TM=320; else NA=3000 TA=90 NV=160 TV=150 TM=110; fi
job() { # job <name> <time limit> <command...>
  local n=$1 t=$2; shift 2
  timeout -k 10 "$t" "$@" >"$LOGS/$n.log" 2>&1; echo $? >"$LOGS/$n.rc"
}
# 1. sanitizers, all cores
export ASAN_OPTIONS=detect_leaks=1:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:quarantine_size_mb=64
job asan $((TA + 200)) "$TD/asan/$TRIPLE/release/orcmon" sanitizer-work asan "$SEED" 0 $NA 8 $TA "$LOGS/asan.cov"
# 2. memcheck and the interpreter, one process per core
for k in 0 1 2; do
  job valgrind$k $((TV + 150)) valgrind -q --error-exitcode=99 --leak-check=no --fair-sched=yes "$TD/release/orcmon" sanitizer-work valgrind "$SEED" $((k * NV)) $(((k + 1) * NV)) 1 $TV "$LOGS/valgrind$k.cov" &
done
if [ $miri_ok = 1 ]; then
  for k in 0 1 2 3 4; do
    export RUSTFLAGS=-Awarnings MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=$((SEED * 16 + k)) $([ $((k % 2)) = 1 ] && echo -Zmiri-tree-borrows)"
    job miri$k $((TM + 200)) cargo $NIGHTLY miri run --offline --target-dir "$TD/miri" -- sanitizer-work miri "$SEED" $((k * 100000)) $(((k + 1) * 100000)) 1 $TM "$LOGS/miri$k.cov" &
  done
fi
wait
exec python3 ../tools/c19_report.py "$LOGS" "$SEED" "$TIER" $(($(date +%s) - start)) "${ORCMON_ROOT:-/verif}"
