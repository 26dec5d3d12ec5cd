#!/bin/bash
# builds the extractor and the harness dependencies, offline
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER=
mkdir -p build
(cd vx && CARGO_TARGET_DIR=../build/target cargo build --offline --release --locked) || exit 1
(cd harness && RUSTFLAGS="--cfg rezip_verif --cap-lints allow" CARGO_TARGET_DIR=../build/htarget cargo build --offline --release) || true
exit 0
