#!/bin/bash
# seedtest.sh ID [CHECK...]: does the planted change /verif/seeded/ID build,
# pass the tests, fail its demonstration; and which checks report it.
# Everything happens in a scratch copy of /repo.
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/sw.$ID
rm -rf "/tmp/sw.$ID"
mkdir -p "$W"
git -C /repo archive HEAD | tar -x -C "$W"
cd "$W" || exit 2
git init -q . 2>/dev/null
if ! git apply "$S/patch.diff"; then echo "$ID: patch does not apply"; exit 2; fi
if [ -z "$SKIPTEST" ]; then
  sed "s#/repo#$W#g" /opt/vp/build.sh > "$W/.b.sh"
  sed "s#/opt/vp/build.sh#$W/.b.sh#; s#/repo#$W#g" /opt/vp/test.sh > "$W/.t.sh"
  bash "$W/.t.sh" "$W/.out.json" > "$W/.log" 2>&1
  python3 - "$W/.out.json" "$ID" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
o = json.load(open(sys.argv[1]))
bad = [x for x in b if x not in o['passed']]
print(sys.argv[2], 'tests:', 'ok' if not bad else 'FAIL %s' % bad)
P
fi
if [ -z "$SKIPDEMO" ]; then
  D=/tmp/swd.$ID; mkdir -p "$D"; cp "$S"/* "$D"/
  (cd /repo && timeout 300 bash "$D/demo.sh" > /tmp/swd.$ID/log0 2>&1); r0=$?
  (cd "$W" && timeout 300 bash "$D/demo.sh" > /tmp/swd.$ID/log1 2>&1); r1=$?
  echo "$ID demo: unpatched=$r0 patched=$r1 $([ $r0 = 0 -a $r1 != 0 ] && echo ok || echo BAD)"
fi
cd /verif
for c in "$@"; do
  VF_REPO=$W VF_EVIDENCE=/tmp/swd.$ID timeout 900 python3 -m vf.check "$c" quick > /tmp/swd.$ID.$c 2>&1; r=$?
  echo "$ID check $c: exit $r $(grep -v '^ ' /tmp/swd.$ID.$c | head -2 | cut -c1-220 | tr '\n' ' ')"
done
rm -rf "/tmp/sw.$ID"
