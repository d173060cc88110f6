# sourced by check.sh and setup.sh; needs $here
# cargo judges path dependencies by modification time; go by content instead
src_hash() {
  (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
   cd "$here/harness" && find src variants Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-64
}
build_in() { # target-dir command...
  local t="$here/harness/$1"; shift
  mkdir -p "$t"
  local log="$t/build.log" h
  h="$(src_hash)"
  if [ "$(cat "$t/src.hash" 2>/dev/null)" != "$h" ]; then
    # force the crates under test (and the harness) to be rebuilt
    find "$t" -type d -path '*/.fingerprint/*' \( -name 'jpeg-decoder-*' -o -name 'jd-*' -o -name 'jdcheck-*' \) -prune -exec rm -rf {} + 2>/dev/null
  fi
  if ! (cd "$here/harness" && "$@" >"$log" 2>&1); then
    echo "build failed:"; tail -40 "$log"
    return 1
  fi
  echo "$h" > "$t/src.hash"
}
build_plain() { build_in target cargo build --release --offline --locked; }
build_asan() {
  RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=1" \
    build_in target-asan cargo build --release --offline --locked --target x86_64-unknown-linux-gnu --target-dir target-asan
}
