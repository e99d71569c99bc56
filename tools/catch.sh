#!/bin/bash
# catch.sh NAME... : run the quick check of each seeded bug against a patched scratch copy (VERIF_REPO)
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  w=/tmp/catch_$n; rm -rf "$w"; cp -a /repo "$w"; git -C "$w" apply "/verif/seeded/$n/patch.diff" || { echo "$n patch fails"; continue; }
  VERIF_REPO=$w VERIF_EVIDENCE=/tmp/catch_ev_$n bash /verif/run.sh "$p" quick > "/tmp/catch_$n.log" 2>&1; rc=$?
  echo "$n $p exit=$rc $(grep -c '^VIOLATION' /tmp/catch_$n.log) violations"
  rm -rf "$w" "/tmp/catch_ev_$n"
done
