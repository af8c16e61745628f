#!/bin/bash
# run.sh ID [--replay FILE]: builds what the check of one property needs from /repo's working tree and runs it.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check could not be run.
V="$(cd "$(dirname "$0")" && pwd)"
export MCK_DIR="$V"
id="$1"; shift
unset RUSTFLAGS CARGO_TARGET_DIR
mkdir -p "$V/target"
# cargo judges freshness by mtime only: forget the repository's crates so that they are compiled again
rm -rf "$V"/target/{release,checked}/.fingerprint/{laya,openjp2}-* "$V"/target/*/release/.fingerprint/{laya,openjp2}-* "$V"/target/asan/*/release/.fingerprint/{laya,openjp2}-*
build() { # dir args...
  local d="$1"; shift
  (cd "$d" && cargo "$@" >"$V/target/build.$$.log" 2>&1) || { grep -A8 '^error' "$V/target/build.$$.log" | head -60; echo "BUILD FAILED in $d"; rm -f "$V/target/build.$$.log"; exit 4; }
  rm -f "$V/target/build.$$.log"
}
case "$id$VERIF_TIER" in
  C0[1-7]*)
    build "$V/iiif" build --offline --release
    if [ "$id" = C04 ]; then
      build "$V/iiif" build --offline --profile checked
      export IIIF_CHECKED="$V/target/checked/iiifmc"
    fi
    exec "$V/target/release/iiifmc" "$id" "$@"
    ;;
  C11*|C12thorough|C20thorough|C17*|C18*)
    # plain build: the reference decoder takes the time
    build "$V/jp2" build --offline --release
    exec "$V/target/release/jp2mc" "$id" "$@"
    ;;
  C1[0-9]*|C2[0-9]*)
    # every access to memory is checked
    export RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=1 --cfg asan"
    build "$V/jp2" +nightly build --offline --release --target x86_64-unknown-linux-gnu --target-dir "$V/target/asan"
    export ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024"
    # wide gaps between objects: one byte written far behind an object must not land in another
    case "$id" in C21*) ASAN_OPTIONS="$ASAN_OPTIONS:redzone=256:max_redzone=2048" ;; esac
    exec "$V/target/asan/x86_64-unknown-linux-gnu/release/jp2mc" "$id" "$@"
    ;;
  *) echo "no check for $id"; exit 4 ;;
esac
