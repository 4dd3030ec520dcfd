#!/bin/bash
# seedcheck.sh ID... : run the property's check against a scratch copy of /repo with the planted change
for id in "$@"; do
  s=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  M=$(mktemp -d /tmp/vfsc.XXXXXX); (cd /repo && git archive HEAD | tar x -C $M); cp /repo/Cargo.lock $M/; cp /repo/pqcrypto/Cargo.lock $M/pqcrypto/ 2>/dev/null
  (cd $M && git init -q . && git apply "$s/patch.diff") || echo "patch fails"
  r=$(cd /verif && VF_REPO=$M timeout 900 ./check $P 2>&1); echo "$id $P exit $? $(echo "$r" | grep -E 'failed obl|VIOL|UNDEC|OK' | cut -c1-220 | tr '\n' ' ')"
  rm -rf "$M"
done
