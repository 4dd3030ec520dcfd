#!/bin/bash
# seedtest.sh ID... : for each seeded bug, in a scratch copy of /repo: demo on the
# clean tree, patch, build, demo again, and (with TESTS=1) the stable tests.
for id in "$@"; do
  s=/verif/seeded/$id; t=/tmp/seedrun-$id; rm -rf "$t"; cp -a /repo "$t"; git -C "$t" checkout -q -- .
  (cd "$t" && bash "$s/demo.sh" >/tmp/seed-$id.clean 2>&1); a=$?
  git -C "$t" apply "$s/patch.diff" || { echo "$id: patch fails"; rm -rf "$t"; continue; }
  (cd "$t" && bash "$s/demo.sh" >/tmp/seed-$id.bug 2>&1); b=$?
  echo "$id demo clean=$a patched=$b"
  if [ -n "$TESTS" ]; then
    (cd "$t" && cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E "^test .*FAILED|error(\[|:)|test result" | grep -v " 0 failed" | head -20)
    if git -C "$t" diff --name-only | grep -q pqcrypto; then (cd "$t/pqcrypto" && cargo test --workspace --all-features --no-fail-fast --offline 2>&1 | grep -E "^test .*FAILED|error(\[|:)|test result" | grep -v " 0 failed" | head)
      (cp -r "$t/pqcrypto/pqclean" "$t/pqw" && cd "$t/pqw/test" && unset CFLAGS && export PATH=/opt/vp/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 && python3 -m pytest -n 8 -p no:cacheprovider --tb=short --junitxml="$t/pq.xml" test_functest.py test_testvectors.py test_nistkat.py test_common.py test_duplicate_consistency.py >/tmp/seed-$id.pq 2>&1; python3 - "$t/pq.xml" <<'P'
import sys, json, xml.etree.ElementTree as E
st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for c in E.parse(sys.argv[1]).iter('testcase'):
    n = c.get('classname') + '::' + c.get('name')
    if n in st and any(x.tag in ('failure', 'error') for x in c): print('STABLE TEST FAILS', n)
P
      )
    fi
  fi
  rm -rf "$t"
done
