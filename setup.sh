#!/bin/bash
# builds every check (offline); the checks rebuild what changed in /repo themselves
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTC_WRAPPER
here=$(cd "$(dirname "$0")" && pwd)
for d in mc mc-sched; do
  [ -f "$here/$d/Cargo.toml" ] || continue
  (cd "$here/$d" && CARGO_TARGET_DIR=${MC_TARGET_DIR:-$here/target} cargo build --release --offline --locked --bins) 2>&1 | tail -3
done
bash "$here/tools/tsan-build.sh" 2>&1 | tail -3
exit 0
