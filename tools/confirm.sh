#!/bin/bash
# confirm.sh ID...: confirm planted bugs in a scratch copy of /repo: the patch
# applies and builds, the stable tests pass, the demonstration fails with the
# patch and passes without it, and the check of the property reports it.
# With NOCHECK=1 the check is not run.
set -u
VERIF=$(realpath "$(dirname "$0")/..")
for id in "$@"; do
  D=$VERIF/seeded/$id
  T=$(mktemp -d /tmp/confirm-XXXXXX)
  cp -a /repo "$T/repo"
  cp -a "$D" "$T/demo"; rm -f "$T/demo/patch.diff" "$T/demo/meta.json"
  unshare -Urm bash -s "$T" "$D" "$id" "$VERIF" "${NOCHECK:-}" <<'INNER'
  T=$1 D=$2 id=$3 VERIF=$4 NOCHECK=$5
  mount --bind $T/repo /repo
  cd /repo
  [ -n "${SKIPPLAIN:-}" ] || timeout 300 bash $T/demo/demo.sh > $T/demo.log 2>&1; echo "$id: demo on the unchanged tree: $?"
  git apply $D/patch.diff || { echo "$id: patch does not apply"; exit 1; }
  bash /opt/vp/test.sh $T/out.json > $T/test.log 2>&1; echo "$id: test status $?"
  python3 - $T/out.json <<'PY'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open(sys.argv[1]))
names=base.get('stable', base.get('passed', base if isinstance(base,list) else []))
p=set(out['passed']); bad=[n for n in names if n not in p]
print("stable tests: %d of %d pass"%(len(names)-len(bad),len(names)), bad[:5])
PY
  timeout 300 bash $T/demo/demo.sh > $T/demo.log 2>&1; echo "$id: demo with the patch: $?"; tail -3 $T/demo.log
  if [ -z "$NOCHECK" ]; then
    prop=$(python3 -c "import json,sys; print(json.load(open('$D/meta.json'))['property'])")
    cd $VERIF; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $prop quick > $T/check.log 2>&1; echo "$id: check of $prop: $?"; head -4 $T/check.log | cut -c1-300
  fi
INNER
  rm -rf "$T"
done
