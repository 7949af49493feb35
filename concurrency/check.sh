#!/bin/bash
# C16. Builds the crate with callbacks at every basic block, load and store,
# links the controlled scheduler and explores. Same exit codes as ../check.sh.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="${VERIF_DIR:-$(cd .. && pwd)}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p build || exit 2
gcc -O2 -Wall -c sched.c -o build/sched.o || exit 2
export CARGO_ENCODED_RUSTFLAGS=$(printf '%s\x1f' -Awarnings -Cpasses=sancov-module \
  -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc \
  -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores)"-Clink-arg=$PWD/build/sched.o"
build() { # plain or checked
  local p=$1
  [ "$p" = plain ] && p=release
  rm -rf "$VERIF_DIR/concurrency/build/$p/.fingerprint/"dumb-crypto-*
  if ! log=$(cargo build --offline --profile "$p" --target-dir build 2>&1); then
    printf '%s\n' "$log" | tail -40 >&2
    echo "build failed; no verdict" >&2
    exit 2
  fi
  export CONC_PROFILE=$1
  CONC="build/$p/conc"
}
if [ "$1" = replay ]; then
  build "$(sed -n 's/^profile=//p' "$2")"
  exec "$CONC" "$@"
elif [ $# != 0 ]; then
  build "${CONC_PROFILE:-plain}"
  exec "$CONC" "$@"
fi
# First, for a few pairs, with debug assertions and overflow checks, then the
# crate as in a user's release build.
e=$VERIF_DIR/evidence/C16.json
build checked
"$CONC" || exit $?
export MC_BEFORE="/tmp/conc-before-$$.json"
mv "$e" "$MC_BEFORE" || exit 2
build plain
"$CONC"
rc=$?
rm -f "$MC_BEFORE"
exit $rc
