#!/bin/bash
# caught.sh [id...]: which planted bugs does the quick check of their property catch?
# Works on a scratch copy of /repo (with VERIF_REPO), several at a time.
one() {
  id=$1; prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' /verif/seeded/$id/meta.json)
  s=$(mktemp -d /tmp/caught.XXXXXX)
  rsync -a --exclude .git ${PLANT_REPO:-/repo}/ $s/ && (cd $s && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo "$id: patch does not apply"
  t0=$(date +%s)
  out=$(cd /verif && VERIF_REPO=$s bash check.sh ${PROP:-$prop} ${TIER:-quick} 2>&1); rc=$?
  t1=$(date +%s)
  echo "$id ${PROP:-$prop} rc=$rc $((t1-t0))s $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | grep -A2 VIOLATION| sed -n 2p | cut -c1-150)"
  rm -rf "$s"
}
ids=${@:-$(ls /verif/seeded)}
for i in $ids; do one $i; done
