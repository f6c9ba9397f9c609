#!/bin/bash
# usage: check.sh <property id>     runs that property's monitors against /repo's working tree
#        check.sh build             builds what the quick checks need
#        check.sh replay <file>     runs the execution recorded in a replay file again
# environment: VERIF_SEED, VERIF_TIER (quick|thorough)
set -u
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
TD="$PWD/target"
mkdir -p "$TD"

. ../build.inc
release() { if [ "$1" = clean ]; then cargo clean --offline --release -p orc-format --target-dir "$TD"; else cargo build --offline --release --target-dir "$TD"; fi; }
plain() { if [ "$1" = clean ]; then cargo clean --offline --profile plain -p orc-format --target-dir "$TD"; else cargo build --offline --profile plain --target-dir "$TD"; fi; }

# A run that ends by a signal or an abort (stack overflow, allocation failure) is a violation too.
run() { # run <id> <program> <args...>
  local id=$1 rc; shift
  "$@" 2> >(tee "$TD/err-$id" >&2); rc=$?
  # killed from outside (memory, time): no answer
  if [ $rc = 137 ] || [ $rc = 143 ]; then return 2; fi
  if [ $rc -gt 2 ]; then
    mkdir -p ../replays
    { echo "property=$id"; echo "seed=${VERIF_SEED:-1}"; echo "ended with status $rc"; tail -c 4000 "$TD/err-$id"; } >"../replays/$id-abort.txt"
    echo "VIOLATION property=$id replay=/verif/replays/$id-abort.txt"
    rc=1
  fi
  return $rc
}

case "${1:-}" in
  build) build release release || exit 2; build plain plain || exit 2; bash ../c19.sh build || exit 2 ;;
  replay) build release release || exit 2; exec "$TD/release/orcmon" replay "$2" ;;
  C19) exec bash ../c19.sh run ;;
  C15) build plain plain || exit 2; run C15 "$TD/plain/orcmon" C15 ;;
  C[0-9]*) build release release || exit 2; run "$1" "$TD/release/orcmon" "$1" ;;
  *) echo "usage: check.sh <property id> | build | replay <file>" >&2; exit 2 ;;
esac
