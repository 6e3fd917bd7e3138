#!/bin/bash
# runseed.sh [seed ids]: run the named property's quick check against each planted bug,
# in a scratch copy of /repo
cd /verif
for d in ${@:-$(ls seeded)}; do
  w=$(mktemp -d /tmp/rs.XXXXXX)
  cp -a /repo "$w/repo"
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  if git -C "$w/repo" apply /verif/seeded/$d/patch.diff; then
    VERIF_REPO=$w/repo timeout 900 python3 check.py $p quick >/tmp/rs.$d.log 2>&1; rc=$?
    echo "$d $p rc=$rc $(grep -m1 'violated:' /tmp/rs.$d.log)"
  else echo "$d $p DOES NOT APPLY"; fi
  rm -rf "$w"
done
