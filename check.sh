#!/bin/bash
# check.sh ID [--replay FILE] : build the harness from /repo's working tree and run one check.
# exit 0 held, 1 violation (VIOLATION line printed), 2+ trouble of the check itself
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export JD_VERIF="$here" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
id="${1:?property id}"
. "$here/tools/build.sh"
if [ "$id" = C22 ]; then
  build_asan || exit 2
  bin="$here/harness/target-asan/x86_64-unknown-linux-gnu/release/jdcheck"
  export ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_segv=1:detect_stack_use_after_return=0"
else
  build_plain || exit 2
  bin="$here/harness/target/release/jdcheck"
fi
if [ "${2:-}" = --replay ] && [ "$(head -c 1 "${3:?replay file}")" != "{" ]; then
  # bytes found by the coverage-guided search
  . "$here/tools/fuzz.sh"
  build_fuzz || exit 2
  log="$(mktemp)"
  FUZZ_PROP="$id" timeout 300 "$fuzzbin" -timeout=60 -detect_leaks=0 "$3" >"$log" 2>&1; rc=$?
  grep -aE 'FAILED property|ERROR: ' "$log" | head -3 | cut -c1-600
  if [ $rc != 0 ] && fuzz_verdict "$id" "$log"; then
    echo "VIOLATION property=$id replay=$3"; rm -f "$log"; exit 1
  fi
  rm -f "$log"; echo "$id: the input passes"; exit 0
fi
if [ "${2:-}" = --replay ]; then
  exec "$bin" replay "${3:?replay file}"
fi
if [ "$VERIF_TIER" = thorough ]; then
  . "$here/tools/fuzz.sh"
  case "$FUZZED" in *" $id "*)
    "$bin" run "$id" || exit $?
    build_plain && build_fuzz || exit 2
    fuzz_stage
    exit $?
  esac
fi
exec "$bin" run "$id"
