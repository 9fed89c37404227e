#!/bin/bash
# seed.sh ID [check]: in a scratch copy of /repo, demo must pass unpatched and fail patched. With "check": also run the property's quick check against /repo with the patch applied.
# With "test": also the test suite in the real tree with patch.
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/seedwt.$ID; rm -rf "$W"; mkdir -p "$W/repo" "$W/d"
git -C /repo archive HEAD | tar x -C "$W/repo"
cp $S/* "$W/d/"; rm -f "$W"/d/*.diff "$W/d/meta.json"
( cd "$W/repo" && timeout 300 bash "$W/d/demo.sh" >"$W/out0" 2>&1 ); a=$?
( cd "$W/repo" && git apply --unsafe-paths "$S/patch.diff" ) || { echo "$ID: patch does not apply"; exit 1; }
( cd "$W/repo" && timeout 300 bash "$W/d/demo.sh" >"$W/out1" 2>&1 ); b=$?
echo "$ID ($P): clean=$a patched=$b  $(tail -1 $W/out1)"
[ $a = 0 ] || tail -5 $W/out0
rm -rf "$W"
for x in "$@"; do
  if [ "$x" = check ]; then
    git -C /repo apply "$S/patch.diff" && ( cd /verif && python3-vt check.py $P quick 2>&1 | grep -v "case:" | cut -c1-250 | tail -3 ); git -C /repo checkout -q -- .
  fi
  if [ "$x" = test ]; then
    git -C /repo apply "$S/patch.diff" && bash /opt/vp/build.sh >/tmp/bl.$ID 2>&1; bash /opt/vp/test.sh /tmp/t.$ID.json >/dev/null 2>&1; python3 - <<PY
import json
r=json.load(open('/tmp/t.$ID.json')); b=json.load(open('/opt/vp/BASELINE.json'))
f=[k for k in (r.get('failed') or [])]
print('$ID tests: passed', len(r.get('passed',[])), 'failed', f[:3])
PY
    git -C /repo checkout -q -- .
  fi
done
