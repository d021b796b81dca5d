#!/bin/bash
# tools/seedcheck.sh <seed id> [nocheck]: confirms a planted change in a scratch copy (builds, stable tests pass, demo 0 without / nonzero with),
# then runs the property's quick check against it (VERIF_REPO) and reports whether it is caught.
id=$1; S=/verif/seeded/$id; W=/tmp/seed_$id
rm -rf "$W"; mkdir -p "$W/r" "$W/demo"
cp -a /repo/. "$W/r/"; cp "$S"/* "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd "$W/r"
bash "$W/demo/demo.sh" > "$W/demo0.log" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash "$W/demo/demo.sh" > "$W/demo1.log" 2>&1; d1=$?
tests=skipped
if [ "$2" != quick ]; then
  # run the stable tests from the patched copy placed at /repo's path is not possible here; they are run in /repo itself
  ( cd /repo && git apply "$S/patch.diff" && bash /opt/vp/test.sh "$W/out.json" > "$W/test.log" 2>&1; git -C /repo checkout -- . )
  tests=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$W/out.json'))
m=b-set(o['passed']); print('pass' if not m else 'FAIL %s'%sorted(m)[:5])
P
)
fi
cd /verif
VERIF_REPO="$W/r" VERIF_BUILD="$W/build" python3 check.py "$prop" > "$W/check.log" 2>&1; rc=$?
v=$(grep -c "^VIOLATION property=$prop" "$W/check.log")
echo "$id: property $prop demo clean=$d0 patched=$d1 tests=$tests check rc=$rc violations=$v"
tail -3 "$W/demo1.log" | cut -c1-200
[ -n "$KEEP" ] || rm -rf "$W"
