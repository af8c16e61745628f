#!/bin/bash
# Builds the framework once (the checks rebuild what they need anyway).
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/target" "$V/evidence" "$V/replays"
(cd "$V/iiif" && cargo build --offline --release) || exit 1
(cd "$V/jp2" && cargo build --offline --release) || exit 1
(cd "$V/jp2" && RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=1 --cfg asan" cargo +nightly build --offline --release --target x86_64-unknown-linux-gnu --target-dir "$V/target/asan") || exit 1
