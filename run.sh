#!/bin/bash
# run.sh <ID> quick|thorough : one check, built from /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
H=$V/harness
HOST=x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p "$V/evidence" "$V/replays"
LOG=$(mktemp /tmp/vmon-log.XXXXXX)
TMP=$(mktemp -d /tmp/vmon-run.XXXXXX)
trap 'rm -f "$LOG"; rm -rf "$TMP"' EXIT
exec 9>"$V/replays/.lock"
flock 9

# build <name> <dir> <target dir> <toolchain> <rustflags> <extra args...>; the library is always compiled anew
build() {
  local name=$1 dir=$2 td=$3 tc=$4 rf=$5
  shift 5
  (
    cd "$dir" || exit 1
    export CARGO_TARGET_DIR=$td
    [ -n "$rf" ] && export RUSTFLAGS=$rf
    # file times alone do not decide whether the library is built again
    find "$td" -type d -path '*/.fingerprint/fuel-tx-*' -prune -exec rm -rf {} + 2>/dev/null
    cargo $tc build --release --offline "$@"
  ) >"$LOG" 2>&1
}
inconclusive() {
  echo "INCONCLUSIVE $ID: $1"
  grep -E "^(error|  *-->)" "$LOG" | head -20
  tail -3 "$LOG"
  exit 2
}
# stage <name> <binary> <args...>: a run that precedes the main one
ATTACH=()
stage() {
  local name=$1 bin=$2
  shift 2
  "$bin" run "$ID" --tier "$TIER" --seed "$SEED" --evidence "$TMP/$name.json" --replays "$V/replays" --known "$V/KNOWN_FINDINGS" "$@" >"$TMP/$name.out" 2>&1
  local rc=$?
  sed "s/^/[$name] /; s/^\[$name\] VIOLATION/VIOLATION/" "$TMP/$name.out" | grep -v "KNOWN-FINDING"
  ATTACH+=(--attach "$name=$TMP/$name.json")
  return $rc
}

build vmon "$H" "$H/target" "" "" || inconclusive "the harness does not build against /repo"
BIN=$H/target/release/vmon
BAD=0
SOFT=0
note() { case $1 in 0) ;; 1) BAD=1 ;; *) SOFT=1 ;; esac; }

if [ "$ID" = C23 ]; then
  if ! build nostd "$V/nostd" "$V/nostd/target" "" ""; then
    if grep -q "could not compile .fuel-tx." "$LOG"; then
      # the standard build compiles (see above) and the one without std no longer does
      cp "$LOG" "$V/replays/C23-nostd-build.log"
      echo "{\"property\":\"C23\",\"tier\":\"$TIER\",\"seed\":$SEED,\"level\":\"exploration\",\"coverage\":{\"evaluations\":0,\"distinct_nontrivial\":0,\"rule\":\"the build without std does not compile\",\"samples\":[]},\"wall_s\":0,\"violations\":1}" >"$V/evidence/C23.json"
      grep -E "^error|-->" "$LOG" | head -6
      echo "VIOLATION property=C23 replay=$V/replays/C23-nostd-build.log"
      exit 1
    fi
    inconclusive "the harness without std does not build"
  fi
  export VMON_NOSTD=$V/nostd/target/release/vmon-nostd
fi

# AddressSanitizer stage
ASAN=0
case $ID:$TIER in
  C03:quick) ASAN=60000 ;;
  C04:quick) ASAN=8000 ;;
  C01:thorough | C15:thorough | C19:thorough | C24:thorough) ASAN=30000 ;;
  C03:thorough) ASAN=3000000 ;;
  C04:thorough) ASAN=200000 ;;
  C16:thorough | C18:thorough | C14:thorough | C07:thorough) ASAN=500000 ;;
esac
if [ $ASAN -gt 0 ]; then
  build asan "$H" "$H/target/asan" +nightly "-Zsanitizer=address" --target $HOST || inconclusive "the AddressSanitizer build failed"
  export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1
  stage address_sanitizer "$H/target/asan/$HOST/release/vmon" --cases $ASAN --cap 150
  note $?
fi
# ThreadSanitizer stage, with an instrumented standard library
if [ "$ID" = C24 ]; then
  build tsan "$H" "$H/target/tsan" +nightly "-Zsanitizer=thread" -Zbuild-std --target $HOST || inconclusive "the ThreadSanitizer build failed"
  export TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_signal_unsafe=0"
  VMON_TSAN=1 stage thread_sanitizer "$H/target/tsan/$HOST/release/vmon" --cases $([ "$TIER" = quick ] && echo 800 || echo 20000) --cap 200
  note $?
fi

"$BIN" run "$ID" --tier "$TIER" --seed "$SEED" --evidence "$V/evidence/$ID.json" --replays "$V/replays" --known "$V/KNOWN_FINDINGS" "${ATTACH[@]}"
note $?
[ $BAD = 1 ] && exit 1
[ $SOFT = 1 ] && exit 2
exit 0
