#!/bin/bash
# seedtest.sh ID...: applies a planted bug to a scratch copy of /repo and runs its property's check there.
cd "$(dirname "$0")/.."
for id in "$@"; do
  w=/tmp/seedtest.$$
  mkdir -p "$w"
  cp -a /repo/stdlib /repo/src /repo/examples /repo/Cargo.toml /repo/build.rs "$w/"
  (cd "$w" && patch -s -p1 < /verif/seeded/$id/patch.diff) || echo "PATCH FAILED"
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  t=$(date +%s)
  VERIF_REPO="$w" VERIF_BUILD=/tmp/seedtest.build python3-vt vt/run.py $p > /tmp/seedtest.log 2>&1
  rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-t))s $(grep -m1 -A1 VIOLATION /tmp/seedtest.log | tail -1 | cut -c1-150) $( [ $rc = 1 ] || tail -2 /tmp/seedtest.log | cut -c1-200)"
  rm -rf "$w"
done
