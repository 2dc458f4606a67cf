#!/bin/bash
# Builds the harness once (every check rebuilds it from /repo's working tree anyway).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
mkdir -p target evidence replays
RUSTFLAGS="--cfg osmio_verif" cargo build --offline --manifest-path harness/Cargo.toml --target-dir target/harness
# what the check of P27 needs besides; it does without what cannot be built
T=x86_64-unknown-linux-gnu
RUSTFLAGS="--cfg osmio_verif" cargo build --offline --manifest-path harness/Cargo.toml --target-dir target/harness --features threads || true
RUSTFLAGS="--cfg osmio_verif" cargo build --offline --manifest-path harness/Cargo.toml --target-dir target/harness --features sqlite || true
RUSTFLAGS="--cfg osmio_verif -Zsanitizer=thread" cargo +nightly build --offline --manifest-path harness/Cargo.toml --target-dir target/tsan --target $T --features threads -Zbuild-std >target/setup-tsan.log 2>&1 || true
RUSTFLAGS="--cfg osmio_verif -Zsanitizer=address" cargo +nightly build --offline --manifest-path harness/Cargo.toml --target-dir target/asan --target $T --features threads >target/setup-asan.log 2>&1 || true
exit 0
