#!/bin/bash
# usage: seed.sh ID...   Confirm a planted bug in a scratch copy: it builds, passes
# the stable tests, and its demo passes without and fails with it; then run the
# check of its property against the patched copy.  (-c: checks only)
V=$(dirname "$(dirname "$(realpath "$0")")")
conly=; [ "$1" = -c ] && { conly=1; shift; }
for id in "$@"; do
  S=$(mktemp -d /tmp/seed.XXXXXX); W=$S/repo; chmod 755 "$S"
  cp -a /repo "$W"
  for f in build test; do sed "s#/repo#$W#g" /opt/vp/$f.sh >"$S/$f.sh"; done
  mkdir "$S/demo"; cp -a "$V/seeded/$id/." "$S/demo/"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
  if [ -z "$conly" ]; then
  bash "$S/build.sh" >"$S/b0.log" 2>&1 || echo "$id: BASE BUILD FAILED"
  (cd "$W" && timeout 300 bash "$S/demo/demo.sh" >"$S/d0.log" 2>&1); d0=$?
  fi
  git -C "$W" apply "$V/seeded/$id/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  if [ -z "$conly" ]; then
  bash "$S/build.sh" >"$S/b1.log" 2>&1 || { echo "$id: BUILD FAILED"; tail -5 "$S/b1.log"; }
  (cd "$W" && timeout 300 bash "$S/demo/demo.sh" >"$S/d1.log" 2>&1); d1=$?
  bash "$S/test.sh" "$S/out.json" >"$S/t.log" 2>&1
  miss=$(python3 - "$S/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
base=b['stable']
m=sorted(set(base)-set(o['passed']))
print(len(m), ' '.join(m[:5]))
PY
)
  echo "$id: demo base=$d0 (want 0) patched=$d1 (want !=0) missing tests: $miss"
  fi
  prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  t=$(date +%s)
  VF_REPO=$W VF_EVIDENCE=$S python3 "$V/vf.py" check "$prop" >"$S/c.log" 2>&1; rc=$?
  echo "$id: check $prop rc=$rc $(( $(date +%s) - t ))s: $(grep -E '^VIOLATION' "$S/c.log" | head -3)"
  [ $rc = 1 ] || tail -5 "$S/c.log"
  rm -rf "$S"
done
