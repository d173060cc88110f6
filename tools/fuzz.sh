# sourced by check.sh (needs $here, $id): coverage-guided search over bytes, the second stage of the thorough tier
FUZZED=" C01 C03 C14 C15 C16 C19 C20 C22 "
fuzzbin="$here/fuzz/target/x86_64-unknown-linux-gnu/release/jdfuzz"
export ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_segv=1:detect_stack_use_after_return=0"
build_fuzz() {
  local t="$here/fuzz/target" h
  mkdir -p "$t"
  h="$(src_hash; sha256sum < "$here/fuzz/src/main.rs")"
  if [ "$(cat "$t/src.hash" 2>/dev/null)" != "$h" ]; then
    find "$t" -type d -path '*/.fingerprint/*' \( -name 'jpeg-decoder-*' -o -name 'jd-*' -o -name 'jdfuzz-*' \) -prune -exec rm -rf {} + 2>/dev/null
  fi
  local p="-Cllvm-args=-sanitizer-coverage"
  if ! (cd "$here/fuzz" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Cpasses=sancov-module $p-level=4 $p-inline-8bit-counters $p-pc-table $p-trace-compares -Ccodegen-units=1 -Zsanitizer=address --cfg fuzzing" \
      cargo build --release --offline --locked --target x86_64-unknown-linux-gnu >"$t/build.log" 2>&1); then
    echo "build failed:"; tail -40 "$t/build.log"
    return 1
  fi
  echo "$h" > "$t/src.hash"
}
# is the end of this log a violation of $1? (panics and hangs are C01's, memory errors C22's)
fuzz_verdict() {
  local p
  p="$(grep -ao 'FAILED property=C[0-9]*' "$2" | tail -1 | sed 's/.*=//')"
  if [ -z "$p" ]; then
    if grep -aq 'ERROR: AddressSanitizer' "$2"; then p=C22
    elif grep -aq 'ERROR: libFuzzer: \(timeout\|deadly signal\)' "$2"; then p=C01
    fi
  fi
  [ "$p" = "$1" ]
}
# the search: some processes for $FUZZ_SECS seconds; 1 with a VIOLATION line, or 0
fuzz_stage() {
  local dir secs n k f
  secs="${FUZZ_SECS:-1500}"; n="${FUZZ_JOBS:-6}"
  dir="$(mktemp -d /tmp/jdfuzz.XXXXXX)" || return 2
  "$here/harness/target/release/jdcheck" seeds "$dir/seeds" 600 >/dev/null 2>&1 || { echo "no seed files"; rm -rf "$dir"; return 2; }
  for k in $(seq 1 "$n"); do
    mkdir -p "$dir/c$k" "$dir/a$k"
    FUZZ_PROP="$id" "$fuzzbin" -seed=$((VERIF_SEED * 100 + k)) -max_total_time="$secs" -timeout=60 -rss_limit_mb=3500 -detect_leaks=0 -max_len=1600 -use_value_profile=$((k % 2)) \
      -print_final_stats=1 -artifact_prefix="$dir/a$k/" "$dir/c$k" "$dir/seeds" >"$dir/log$k" 2>&1 &
  done
  wait
  local rc=0
  for k in $(seq 1 "$n"); do
    for f in "$dir/a$k"/*; do
      [ -e "$f" ] || continue
      # once more on its own, then smaller
      FUZZ_PROP="$id" timeout 200 "$fuzzbin" -timeout=60 -detect_leaks=0 "$f" >"$dir/again" 2>&1 && continue
      fuzz_verdict "$id" "$dir/again" || { echo "note: a fuzzing process stopped for another reason: $(grep -aoE 'FAILED property=.*|ERROR: [A-Za-z]+.*' "$dir/again" | tail -1 | cut -c1-300)"; continue; }
      if [ $rc = 0 ]; then
        mkdir -p "$here/replays"
        cp "$f" "$here/replays/$id-fuzz.bin"
        FUZZ_PROP="$id" timeout 120 "$fuzzbin" -minimize_crash=1 -max_total_time=60 -timeout=60 -detect_leaks=0 -exact_artifact_path="$dir/min" "$f" >/dev/null 2>&1
        if [ -s "$dir/min" ] && ! FUZZ_PROP="$id" timeout 200 "$fuzzbin" -timeout=60 -detect_leaks=0 "$dir/min" >"$dir/again2" 2>&1 && fuzz_verdict "$id" "$dir/again2"; then
          cp "$dir/min" "$here/replays/$id-fuzz.bin"; cp "$dir/again2" "$dir/again"
        fi
        grep -aE 'FAILED property|ERROR: ' "$dir/again" | head -3 | cut -c1-600
        echo "VIOLATION property=$id replay=$here/replays/$id-fuzz.bin"
        rc=1
      fi
    done
  done
  python3 - "$here/evidence/$id.json" "$dir" "$n" "$secs" "$rc" <<'P'
import json, re, sys, glob
ev, d, n, secs, rc = sys.argv[1:]
e = json.load(open(ev))
runs = corp = edges = 0
for f in glob.glob(d + "/log*"):
    t = open(f, errors="replace").read()
    r = re.findall(r"^#(\d+)\s+\S+\s+cov: (\d+) ft: \d+ corp: (\d+)", t, re.M)
    if r:
        runs += max(int(x[0]) for x in r); edges = max(edges, int(r[-1][1])); corp += int(r[-1][2])
e["coverage"]["coverage_guided"] = {"processes": int(n), "seconds": int(secs), "executions": runs, "edges": edges, "inputs_kept_for_new_coverage": corp}
if rc == "1": e["violations"] = e.get("violations", 0) + 1
json.dump(e, open(ev, "w"), indent=1)
print("coverage-guided: %d executions, %d edges, %d inputs kept" % (runs, edges, corp))
P
  rm -rf "$dir"
  return $rc
}
