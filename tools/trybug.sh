#!/bin/bash
# trybug.sh ID...: development helper. Confirms planted bugs in a private mount namespace where a
# copy of /repo and /verif is bound over the originals: builds, stable tests, demo, check.
[ -z "$TB_IN" ] && { export TB_IN=1; exec unshare -Urm "$0" "$@"; }
SKIPTEST=${SKIPTEST:-}
mkdir -p /tmp/bug
rsync -a --delete --exclude _build --exclude target /repo/ /tmp/bug/repo/
mkdir -p /tmp/bug/verif
rsync -a --delete --exclude build --exclude .git --exclude evidence --exclude replays /verif/ /tmp/bug/verif/
mkdir -p /tmp/bug/verif/build /tmp/bug/seeded
rsync -a --delete /verif/seeded/ /tmp/bug/seeded/
mount --bind /tmp/bug/repo /repo && mount --bind /tmp/bug/verif /verif || exit 9
cd /repo && git checkout -q -- . 
one() {
  id=$1; d=/tmp/bug/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  L=/tmp/bug/$id.log; : > $L
  git -C /repo checkout -q -- .
  if [ -n "$CLEAN" ]; then
    bash /opt/vp/build.sh >>$L 2>&1 || { echo "$id: clean build failed"; return; }
    (cd /repo && bash $d/demo.sh) >>$L 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 $L; return; }
  fi
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; return; }
  bash /opt/vp/build.sh >>$L 2>&1 || { echo "$id: BUILD FAILS"; tail -15 $L; git -C /repo checkout -q -- .; return; }
  t="tests skipped"
  if [ -z "$SKIPTEST" ]; then
    bash /opt/vp/test.sh /tmp/bug/$id.json >>$L 2>&1
    t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/bug/$id.json'))
bl=b['stable']
m=[x for x in bl if x not in set(o['passed'])]
print('tests ok' if not m else 'TESTS FAIL: %s'%m[:4])")
  fi
  (cd /repo && bash $d/demo.sh) >>$L 2>&1 && dm="DEMO PASSES WITH BUG" || dm="demo ok"
  git -C /repo status --short | grep -v '^??' >/dev/null
  c="check skipped"
  if [ -z "$SKIPCHECK" ]; then
    s=$(date +%s); VERIF_SEED=${SEED:-1} VERIF_TIER=quick /verif/run.sh $p --tier quick >/tmp/bug/$id.check 2>&1; rc=$?
    c="check rc=$rc $(grep -c "^VIOLATION property=$p" /tmp/bug/$id.check) viol $(( $(date +%s)-s ))s"
    [ $rc = 1 ] && c="CAUGHT $c" || c="MISSED $c"
  fi
  echo "$id ($p): $t; $dm; $c"
  git -C /repo checkout -q -- .
}
for i in "$@"; do one $i; done
