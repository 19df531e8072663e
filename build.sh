#!/bin/bash
# Builds the harness (and with it /repo's library and tools) from /repo's current working tree.
# usage: build.sh [san]      san: builds with sanitizers, and for the interpreter, too
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null || true
export CARGO_NET_OFFLINE=true
BUILD="$VERIF/.build"
unset RUSTFLAGS CC CFLAGS
mkdir -p "$BUILD"
exec 9>"$BUILD/.vlock"
flock 9
# cargo goes by modification times, which say nothing about a tree that was copied or patched: go by content
sum=$(cd /repo && find . \( -name .git -o -name target \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 \
      | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
hsum=$(cd "$VERIF" && find harness miri tools/msan-cc \( -name target -prune \) -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
T=x86_64-unknown-linux-gnu

# flavour, command to run in the directory of its crate
build() {
  local name=$1 dir=$2 packages=$3
  shift 3
  export CARGO_TARGET_DIR="$BUILD"
  [ "$name" = plain ] || CARGO_TARGET_DIR="$BUILD/$name"
  mkdir -p "$CARGO_TARGET_DIR"
  local stamp="$CARGO_TARGET_DIR/.content" log="$CARGO_TARGET_DIR/build.log"
  [ "$(cat "$stamp" 2>/dev/null)" = "$sum $hsum" ] && return 0
  (cd "$dir" && for p in $packages; do
     case $name in
       plain) cargo clean --offline -p "$p" ;;
       miri) CARGO_TARGET_DIR="$CARGO_TARGET_DIR/miri" cargo +nightly clean --offline --target $T -p "$p" ;;
       *) cargo +nightly clean --offline --target $T -p "$p" ;;
     esac
   done >/dev/null 2>&1)
  rm -f "$stamp"
  if ! (cd "$dir" && "$@" >"$log" 2>&1); then
    echo "build failed ($name):"; tail -50 "$log"
    return 1
  fi
  echo "$sum $hsum" > "$stamp"
}

plain() { build plain "$VERIF/harness" "chopper vh" cargo build --offline --locked --lib --bins; }
asan() {
  RUSTFLAGS="-Zsanitizer=address" CC=clang CFLAGS="-fsanitize=address -g" \
    build asan "$VERIF/harness" "chopper vh" cargo +nightly build --offline --locked --lib --bins --target $T
}
msan() {
  RUSTFLAGS="-Zsanitizer=memory" CC="$VERIF/tools/msan-cc" \
    build msan "$VERIF/harness" "chopper vh" cargo +nightly build --offline --locked --lib --bins -Zbuild-std --target $T
}
interpreted() {
  # runs nothing, but leaves everything built
  mkdir -p "$BUILD/empty" && : > "$BUILD/empty/list"
  MIRIFLAGS=-Zmiri-disable-isolation build miri "$VERIF/miri" "chopper vmiri" cargo +nightly miri run --offline --locked -- "$BUILD/empty"
}

plain || exit 2
if [ "${1:-}" = san ]; then
  pids=()
  for f in asan msan interpreted; do $f & pids+=($!); done
  for p in "${pids[@]}"; do wait "$p" || exit 2; done
fi
