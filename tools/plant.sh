#!/bin/bash
# plant.sh <seed dir> [check ids...] : validate a planted bug in a scratch copy and run checks on it.
# Nothing in /repo is touched; scratch lives in /tmp/plant.
set -u
S=$(realpath "$1"); shift
P=/tmp/plant
ids=("$@")
prop=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
[ ${#ids[@]} = 0 ] && ids=("$prop")
for d in clean bug; do
  mkdir -p $P/$d
  [ -d $P/$d/fuel-tx/.git ] || git clone -q /repo $P/$d/fuel-tx
  git -C $P/$d/fuel-tx fetch -q /repo HEAD && git -C $P/$d/fuel-tx reset -q --hard FETCH_HEAD
  cp -n /repo/Cargo.lock $P/$d/fuel-tx/Cargo.lock 2>/dev/null
done
R=$P/bug/fuel-tx
git -C $R apply "$S/patch.diff" || { echo "BAD: patch does not apply"; exit 1; }
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never INSTA_UPDATE=no CARGO_PROFILE_DEV_DEBUG=line-tables-only
if [ -z "${SKIP_TESTS:-}" ]; then
  export CARGO_TARGET_DIR=$P/target
  M=$R/Cargo.toml
  rm -rf $P/target/debug/.fingerprint/fuel-tx-*
  cargo test --manifest-path $M --workspace --all-features --no-fail-fast --offline -- --test-threads 8 >$P/test.log 2>&1
  for f in "" alloc serde; do cargo check --manifest-path $M --lib --no-default-features --features "$f" --offline >$P/check.log 2>&1 || { echo "BAD: no-std check '$f' fails"; tail -20 $P/check.log; exit 1; }; done
  python3 - "$P/test.log" <<'X'
import json,re,sys
b=json.load(open('/opt/vp/BASELINE.json'))
t=open(sys.argv[1]).read()
ok=len(re.findall(r'^test .* \.\.\. ok$',t,re.M)); bad=re.findall(r'^test (.*) \.\.\. FAILED$',t,re.M)
print('tests ok',ok,'failed',bad, '' if 'error: could not compile' not in t else 'COMPILE ERROR')
X
  unset CARGO_TARGET_DIR
  (cd $P/clean/fuel-tx && bash $S/demo.sh >$P/demo-clean.log 2>&1); a=$?
  (cd $R && bash $S/demo.sh >$P/demo-bug.log 2>&1); b=$?
  echo "demo: clean $a, bug $b $( [ $a = 0 ] && [ $b != 0 ] && echo good || echo BAD)"; grep -aE "assert|panicked|left|right|error(\[|:)" $P/demo-bug.log | head -4 | cut -c1-160
fi
# the checks, from a copy of the committed or working machinery pointed at the patched tree
V=$P/verif
mkdir -p $V
rsync -a --delete --exclude .git --exclude target --exclude evidence --exclude replays --exclude seeded /verif/ $V/ 2>/dev/null || { for x in harness/src harness/Cargo.toml harness/Cargo.lock nostd/src nostd/Cargo.toml nostd/Cargo.lock run.sh KNOWN_FINDINGS; do mkdir -p $V/$(dirname $x); rm -rf $V/$x; cp -a /verif/$x $V/$x; done; }
sed -i "s#path = \"/repo\"#path = \"$R\"#" $V/harness/Cargo.toml $V/nostd/Cargo.toml
for i in "${ids[@]}"; do
  (cd $V && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./run.sh $i quick >$P/check-$i.log 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$i" $P/check-$i.log; then echo "CAUGHT by $i: $(grep -m1 '  case' $P/check-$i.log | cut -c1-260)"; else echo "MISSED by $i (rc $rc): $(tail -2 $P/check-$i.log | cut -c1-300)"; fi
done
