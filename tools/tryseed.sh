#!/bin/bash
# tryseed.sh ID [nocheck]: confirm a planted bug (applies, builds, tests pass, demo) and run the check against it
set -u
ID=$1; D=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
. /opt/vp/env.sh
cp -r "$D" "$W/demo"
bash "$W/demo/demo.sh" >"$W/d0" 2>&1; r0=$?
git apply "$D/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
bash "$W/demo/demo.sh" >"$W/d1" 2>&1; r1=$?
[ $r0 = 0 ] && [ $r1 != 0 ] && echo "$ID demo ok" || { echo "$ID DEMO BAD clean=$r0 patched=$r1"; tail -5 "$W/d0" "$W/d1"; }
if [ "${2:-}" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  VERIF_REPO=$W/repo VERIF_SEED=1 /verif/check.sh $P quick >"$W/c" 2>&1; echo "$ID check exit $?: $(grep VIOLATION "$W/c" | sed 's/replay=[^ ]*//') $(grep 'failing input' "$W/c" | head -1 | cut -c1-150)"
fi
if [ "${3:-}" = tests ]; then
  sed "s#/repo#$W/repo#g" /opt/vp/run_tests.py > "$W/rt.py"; mkdir "$W/tw"
  (cd "$W/repo" && python3 "$W/rt.py" "$W/tw" >/dev/null 2>&1; python3 /opt/vp/results.py "$W/out.json" "gojson:$W/tw/log.json" >/dev/null 2>&1)
  python3 - "$W/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
m=sorted(b-set(o['passed'])); print('   tests lost:',len(m),m[:5])
P
fi
