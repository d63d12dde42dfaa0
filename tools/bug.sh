#!/bin/bash
# tools/bug.sh SEEDED_DIR [CHECK_ID...]: validates a planted bug in a scratch copy bound over /repo (mount namespace), then
# runs the given checks (default: the bug's property) on it. Env: NOTEST=1 skips the test suite, SLOT=n picks a scratch copy.
set -u
B=$(realpath "$1"); shift
SC=/tmp/sc${SLOT:-0}
mkdir -p "$SC"
if [ ! -d "$SC/repo" ]; then cp -a /repo "$SC/repo"; fi
git -C "$SC/repo" checkout -q -- . ; git -C "$SC/repo" fetch -q /repo HEAD && git -C "$SC/repo" reset -q --hard FETCH_HEAD
mkdir -p "$SC/verif"; rsync -a --delete --exclude build --exclude out --exclude seeded /verif/ "$SC/verif/" 2>/dev/null || { find "$SC/verif" -mindepth 1 -maxdepth 1 ! -name build -exec rm -r {} +; (cd /verif && tar cf - --exclude=./build --exclude=./out --exclude=./seeded .) | tar xf - -C "$SC/verif"; }
[ -d "$SC/verif/build" ] || cp -a /verif/build "$SC/verif/build" 2>/dev/null
rm -rf "${SC:?}/demo"; mkdir -p "$SC/demo"; cp -a "$B/." "$SC/demo/"
ID=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
CHK="${*:-$ID}"
exec unshare -m bash -c '
SC=$1; B=$2; CHK=$3
mount --bind $SC/repo /repo; mount --bind $SC/verif /verif
cd /repo
bash /opt/vp/build.sh >$SC/log 2>&1 || { echo BUILD-CLEAN-FAILED; exit; }
bash $SC/demo/demo.sh >$SC/demo.clean 2>&1; a=$?
git apply $SC/demo/patch.diff || { echo APPLY-FAILED; exit; }
bash /opt/vp/build.sh >$SC/log 2>&1 || { echo BUILD-FAILED; grep -m3 error $SC/log; git checkout -q -- .; exit; }
t=skipped; [ -n "${NOTEST:-}" ] || t=$(bash /opt/vp/test.sh $SC/t.json 2>&1 | tail -1)
bash $SC/demo/demo.sh >$SC/demo.bug 2>&1; b=$?
echo "demo clean=$a bug=$b tests: $t"
[ $a = 0 ] && [ $b != 0 ] || { echo "DEMO-BAD"; tail -3 $SC/demo.clean $SC/demo.bug; }
cd /verif
for c in $CHK; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $c --tier quick > $SC/chk 2>&1; r=$?
  echo "check $c rc=$r"; grep -B1 VIOLATION $SC/chk | grep -v "^--" | cut -c1-300
  [ $r = 0 ] || [ $r = 1 ] || tail -5 $SC/chk
done
git -C /repo checkout -q -- .
' x "$SC" "$B" "$CHK"
