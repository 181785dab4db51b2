#!/bin/bash
# plant.sh ID [CHECK...]   verifies seeded/ID in a scratch copy: applies, builds, passes the stable tests, demo passes
# without it and fails with it; then runs the given checks (default: the property of meta.json), quick tier.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
dir=$here/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
w=$(mktemp -d /tmp/plant-XXXXXX)
trap 'rm -rf "$w"' EXIT
git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$w"
cp -r "$dir" "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1); a=$?
[ $a = 0 ] || { echo "$id: demo FAILS on the unchanged tree ($a)"; tail -5 "$w/clean.log"; }
(cd "$w/repo" && git init -q . && git apply "$dir/patch.diff") || { echo "$id: patch does not apply"; exit 1; }
sed "s|/repo|$w/repo|g" /opt/vp/build.sh > "$w/build.sh"
bash "$w/build.sh" >"$w/build.log" 2>&1 || { echo "$id: does not build"; tail -20 "$w/build.log"; exit 1; }
mkdir -p "$w/reports"; (cd "$w/repo/_build" && python3 /opt/vp/run_catch.py "$w/repo/_build/simu-test" "$w/reports" >"$w/test.log" 2>&1)
python3 /opt/vp/results.py "$w/o.json" "junit:$w/reports/*.xml" "lines:$w/reports/crashed.txt" >/dev/null 2>&1
python3 - "$w/o.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
m=[t for t in b['stable'] if t not in o['passed']]
print(sys.argv[2]+":", "tests pass" if not m else "TESTS FAIL %s"%m[:3])
P
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1); b=$?
echo "$id: demo clean=$a planted=$b"; tail -2 "$w/bug.log"
for c in ${*:-$prop}; do
  SIMU_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 "$here/check.py" "$c" quick >"$w/check.log" 2>&1; r=$?
  echo "$id: check $c exit=$r $(grep -m1 VIOLATION "$w/check.log") $(grep -v '^ *#\|^==\|^  0x' "$w/check.log" | tail -1 | cut -c1-150)"
done
