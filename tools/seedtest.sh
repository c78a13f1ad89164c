#!/bin/bash
# tools/seedtest.sh ID... : for each planted change, in scratch copies: patch applies, demo passes/fails, stable tests pass, check catches
# (development aid; not used by any check)
for ID in "$@"; do
  D=/tmp/w/seed_$ID; rm -rf "$D"; mkdir -p /tmp/w; cp -a /repo "$D"
  S=/verif/seeded/$ID
  git -C "$D" apply "$S/patch.diff" || { echo "$ID: patch does not apply"; continue; }
  (cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/w/$ID.demo0 2>&1); a=$?
  (cd "$D" && timeout 300 bash "$S/demo.sh" >/tmp/w/$ID.demo1 2>&1); b=$?
  prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd /verif && VERIF_REPO=$D ./check.py $prop >/tmp/w/$ID.chk 2>&1); c=$?
  t=-
  if [ -z "$NOTEST" ]; then
    sed "s#cd /repo#cd $D#" /opt/vp/test.sh > /tmp/w/$ID.test.sh
    bash /tmp/w/$ID.test.sh /tmp/w/$ID.out.json > /tmp/w/$ID.tlog 2>&1
    t=$(/opt/venv/bin/python -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/w/$ID.out.json'))['passed'])
print('ok' if b<=p else 'FAIL '+str(sorted(b-p)))")
  fi
  echo "$ID prop=$prop demo_clean=$a demo_patched=$b check=$c tests=$t :: $(grep VIOLATION /tmp/w/$ID.chk | head -2 | tr '\n' ' ')"
  git -C /verif checkout -q -- evidence 2>/dev/null
  rm -rf "$D"
done
