#!/bin/bash
# Confirms planted changes: applies each to /repo, builds, runs the stable tests,
# the demonstration (clean and changed) and the property's own check, and undoes it.
#   tools/seed_try.sh [-n] ID...     -n: without the check
V=$(cd "$(dirname "$0")/.." && pwd)
CHECK=1; [ "$1" = -n ] && { CHECK=0; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d); cp "$d"/demo.sh "$d"/*.rs "$t"/ 2>/dev/null
  res="$id $prop:"
  (cd /repo && bash "$t/demo.sh" >"$t/clean.txt" 2>&1) && res="$res demo-clean=ok" || res="$res DEMO-CLEAN-FAILS"
  git -C /repo apply "$d/patch.diff" || { echo "$res PATCH-DOES-NOT-APPLY"; rm -rf "$t"; continue; }
  bash /opt/vp/build.sh >"$t/build.txt" 2>&1 || res="$res BUILD-FAILS"
  bash /opt/vp/test.sh "$t/o.json" >"$t/test.txt" 2>&1
  python3 - "$t/o.json" <<'P' && res="$res tests=ok" || res="$res TESTS-FAIL"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
s=b.get('stable') or b.get('passed') or b
bad=[x for x in s if x not in set(o['passed'])]
print("   missing:",bad[:4]) if bad else None
sys.exit(bool(bad))
P
  (cd /repo && bash "$t/demo.sh" >"$t/bug.txt" 2>&1) && res="$res DEMO-DOES-NOT-FAIL" || res="$res demo-bug=fails($(grep -m1 -iE 'FAIL|panicked|error|Undefined' "$t/bug.txt" | cut -c1-110))"
  if [ $CHECK = 1 ]; then
    for p in ${PROPS:-$prop}; do
      s=$(date +%s)
      out=$(cd "$V" && python3 check.py $p quick 2>"$t/chk.txt"); rc=$?
      if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then res="$res CAUGHT-$p($(($(date +%s)-s))s: $(grep -m1 '^violation' "$t/chk.txt" | cut -c1-140))"
      else res="$res MISSED-$p(rc=$rc)"; fi
    done
  fi
  git -C /repo checkout -q -- .
  echo "$res"
  grep -q FAILS <<<"$res" && { tail -5 "$t/clean.txt" "$t/build.txt"; }
  rm -rf "$t"
done
bash /opt/vp/build.sh >/dev/null 2>&1
