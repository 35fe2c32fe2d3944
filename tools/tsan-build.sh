#!/bin/bash
# builds the C19 check with ThreadSanitizer, the standard library included
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${MC_TARGET_DIR:-$here/target}/tsan RUSTFLAGS=-Zsanitizer=thread
cd "$here/mc-sched" && exec cargo build --release --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu --bin c19
