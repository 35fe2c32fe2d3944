#!/bin/bash
# usage: check.sh <property id> [quick|thorough]   |   check.sh replay <file>
# Builds the check for one property from /repo's working tree and runs it.
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTC_WRAPPER
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export CARGO_TARGET_DIR=${MC_TARGET_DIR:-$here/target}
id=$1
if [ "$id" = replay ]; then
  file=$(realpath "$2"); id=$(sed -n 's/.*"property":"\([A-Z0-9]*\)".*/\1/p' "$file"); args=(--replay "$file")
else
  args=(--tier "${2:-${VERIF_TIER:-quick}}")
fi
bin=$(echo "$id" | tr 'A-Z' 'a-z')
if [ -f "$here/mc-sched/src/bin/$bin.rs" ]; then dir=$here/mc-sched; else dir=$here/mc; fi
log=$(mktemp)
if ! (cd "$dir" && cargo build --release --offline --locked --bin "$bin") >"$log" 2>&1; then
  grep -A14 '^error' "$log" || cat "$log"; rm -f "$log"; echo "ERROR property=$id: the check does not build against /repo"; exit 3
fi
# the part that runs with a race detector (ThreadSanitizer, nightly toolchain)
if [ "$id" = C19 ] && { [ -z "$file" ] || grep -q '"space":"races' "$file"; }; then
  if bash "$here/tools/tsan-build.sh" >"$log" 2>&1; then
    rm -f "$log"
    rm -f "$here/evidence/C19-races.json"
    reports=$(mktemp -d)
    MC_RACES=1 MC_NO_RLIMIT=1 MC_HANG_S=300 MC_EVIDENCE_SUFFIX=-races TSAN_OPTIONS="halt_on_error=1 exitcode=66 log_path=$reports/race" \
      "$CARGO_TARGET_DIR/tsan/x86_64-unknown-linux-gnu/release/c19" "${args[@]}"
    rc=$?
    cat "$reports"/* 2>/dev/null | grep -E '^SUMMARY|^  (Read|Write|Previous)|^    #.* /repo/src' | head -24 | cut -c1-260
    rm -rf "$reports"
    [ -n "$file" ] && exit $rc
    [ $rc = 1 ] && { mv "$here/evidence/C19-races.json" "$here/evidence/C19.json"; exit 1; }
    # anything else than a verdict: this part could not run here, the rest still does
    [ $rc = 0 ] && export MC_MERGE=$here/evidence/C19-races.json || echo "NOTE property=C19: the race detector part did not run (exit $rc)"
  else
    tail -5 "$log"; echo "NOTE property=C19: the race detector build is not available, running without it"
  fi
fi
rm -f "$log"
if [ "$id" = C22 ]; then
  # builds other configurations of /repo itself; those builds are not kept
  MC_NO_RLIMIT=1 MC_HANG_S=400 "$CARGO_TARGET_DIR/release/$bin" "${args[@]}"; rc=$?
  rm -rf "$CARGO_TARGET_DIR/feat"
  exit $rc
fi
if [ -n "$MC_MERGE" ]; then
  "$CARGO_TARGET_DIR/release/$bin" "${args[@]}"; rc=$?
  rm -f "$MC_MERGE"
  exit $rc
fi
exec "$CARGO_TARGET_DIR/release/$bin" "${args[@]}"
