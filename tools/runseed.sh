#!/bin/bash
# Developer tool: run the quick check of a seeded bug against a copy of /repo with the patch applied. usage: runseed.sh id...
. /opt/vp/env.sh; export GOSUMDB=off CGO_ENABLED=0
(cd /verif/engine && go build -o /tmp/gosym .) || exit 1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  rsync -a --delete /repo/ /tmp/rs/
  git -C /tmp/rs apply /verif/seeded/$id/patch.diff || continue
  (cd /verif && timeout 900 /tmp/gosym -prop $p -tier quick -repo /tmp/rs -verif /verif > /tmp/rs.$id.log 2>&1); rc=$?
  echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/rs.$id.log)"
done
rm -rf /tmp/rs
