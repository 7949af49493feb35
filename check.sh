#!/bin/bash
# Usage: ./check.sh C01            decide one property (tier from VERIF_TIER)
#        ./check.sh replay FILE    run one recorded case again
#        ./check.sh build          build only
# Exit: 0 held, 1 violation (with a VIOLATION line), 2 no verdict.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
T=harness/target

# C21 runs as a native 32-bit process; see harness/m32/build.sh.
T32=harness/target32/i686-unknown-linux-gnu
build32() { # profile
  rm -rf "$VERIF_DIR/$T32/$1/.fingerprint/"dumb-crypto-* "$VERIF_DIR/$T32/$1/build/"dumb-crypto*
  local log
  if ! log=$(./harness/m32/build.sh "$1" 2>&1); then
    printf '%s\n' "$log" | tail -40 >&2
    echo "32-bit build failed; no verdict" >&2
    exit 2
  fi
}

# The code under test is always compiled anew from the current working tree.
build() { # profile
  rm -rf "$VERIF_DIR/$T/$1/.fingerprint/"dumb-crypto-*
  local log
  if ! log=$(cd harness && cargo build --offline --profile "$1" 2>&1); then
    printf '%s\n' "$log" | tail -40 >&2
    echo "build failed; no verdict" >&2
    exit 2
  fi
}

# C25: calls back at every basic block. The pass runs after the optimiser.
buildtrace() { # profile
  mkdir -p harness/target-trace
  rm -rf "harness/target-trace/$1/.fingerprint/"dumb-crypto-*
  gcc -O2 -Wall -ftls-model=local-exec -c harness/trace.c -o harness/target-trace/trace.o || exit 2
  local log
  if ! log=$(cd harness && CARGO_ENCODED_RUSTFLAGS=$(printf '%s\x1f' -Awarnings --cfg=trace -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc)"-Clink-arg=$PWD/target-trace/trace.o" \
      cargo build --offline --profile "$1" --target-dir target-trace 2>&1); then
    printf '%s\n' "$log" | tail -40 >&2
    echo "build failed; no verdict" >&2
    exit 2
  fi
}

# Run a check in each profile; its evidence tells about all of them.
decide() { # property, build command, directory of the binaries, profiles
  local id=$1 build=$2 dir=$3 e=$PWD/evidence/$1.json
  shift 3
  export MC_BEFORE=
  for MC_PROFILE in "$@"; do
    export MC_PROFILE
    $build "$MC_PROFILE"
    "$dir/$MC_PROFILE/mc" run "$id" || { rc=$?; rm -f "$MC_BEFORE"; exit $rc; }
    [ -z "$MC_BEFORE" ] || rm -f "$MC_BEFORE"
    MC_BEFORE="/tmp/mc-before-$$-$MC_PROFILE.json"
    mv "$e" "$MC_BEFORE" || exit 2
  done
  mv "$MC_BEFORE" "$e" || exit 2
  exit 0
}

case "$1" in
  build)
    build release
    build plain
    build unopt
    ;;
  replay)
    profile=$(sed -n 's/^profile=//p' "$2")
    if grep -q '^property=C21$' "$2"; then
      build32 "$profile"
      exec "$T32/$profile/mc" replay "$2"
    fi
    if grep -q '^property=C25$' "$2"; then
      buildtrace "$profile"
      exec "harness/target-trace/$profile/mc" replay "$2"
    fi
    if grep -q '^property=C16$' "$2"; then
      exec ./concurrency/check.sh replay "$(realpath "$2")"
    fi
    build "$profile"
    exec "$T/$profile/mc" replay "$2"
    ;;
  C16) exec ./concurrency/check.sh ;;
  C21)
    profiles="release"
    [ "$VERIF_TIER" = thorough ] && profiles="plain release"
    decide "$1" build32 "$T32" $profiles
    ;;
  C25)
    decide "$1" buildtrace harness/target-trace plain release
    ;;
  C17)
    # Also compiled as `cargo test` and `cargo run` do by default: without
    # optimisation every frame of a recursion is there.
    decide "$1" build "$T" plain unopt release
    ;;
  C[0-9][0-9])
    # The plain release profile (what a user's release build has) and the
    # checked one (overflow checks and debug assertions); both have to hold.
    decide "$1" build "$T" plain release
    ;;
  *)
    sed -n 2,5p "$0" >&2
    exit 2
    ;;
esac
