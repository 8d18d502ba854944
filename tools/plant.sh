#!/bin/bash
# Development aid: confirm a planted bug in a scratch copy of /repo.
# usage: plant.sh ID [notest]   (uses /verif/seeded/ID)
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant_$ID
[ -n "$ID" ] || exit 2
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cd "$W/repo" || exit 2
export PYTHONPATH=$W/repo/hypothesis-python/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
bash "$D/demo.sh" >"$W/demo0" 2>&1; echo "demo on unchanged: $?"
git apply "$D/patch.diff" || { echo "PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
bash "$D/demo.sh" >"$W/demo1" 2>&1; echo "demo with patch: $?"; tail -3 "$W/demo1"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
(cd /verif; SA_REPO=$W/repo SA_EVIDENCE=$W/ev python3 -m sa.run "$P" >"$W/check" 2>&1; echo "check $P: $?"; grep -a VIOLATION "$W/check" | head -3 | cut -c1-300)
if [ "$2" != notest ]; then
  cd "$W/repo/hypothesis-python"; mkdir "$W/r"
  timeout 700 /opt/venv/bin/python -bb -X dev -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 -n 8 tests --ignore=tests/crosshair --ignore=tests/watchdog --ignore=tests/ghostwriter --junitxml=$W/r/main.xml >"$W/main.log" 2>&1
  tail -4 "$W/main.log"
  /opt/venv/bin/python /opt/vp/results.py "$W/out.json" "junit:$W/r/*.xml" | tail -2
  python3 - "$W/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
f=sorted(b & (set(o.get('failed',[]))))
m=sorted(x for x in b-set(o['passed']) if 'django' not in x and 'crosshair' not in x and 'whole_repo' not in x and 'examples.' not in x and 'ghostwriter' not in x)
print("STABLE TESTS BROKEN:", len(m), m[:5])
P
fi
rm -rf "$W"
