#!/bin/bash
# seedcheck.sh <id> [check ...]   verifies one planted bug in a scratch copy of /repo and runs checks on it
V="$(cd "$(dirname "$0")/.." && pwd)"; id=$1; shift
S="$V/seeded/$id"; d="$(mktemp -d /tmp/seed.XXXXXX)"; trap 'rm -rf "$d"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
cp -a /repo "$d/repo"; cp -a "$S" "$d/seed"; rm -f "$d/seed/patch.diff" "$d/seed/meta.json"
cd "$d/repo"
if [ -z "${NODEMO:-}" ]; then
bash "$d/seed/demo.sh" > "$d/clean.out" 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -30 "$d/clean.out"; exit 1; }
fi
git apply "$S/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
go build ./... || { echo "$id: DOES NOT BUILD"; exit 1; }
rm -f /tmp/log.gb
go test -json -vet=off -count=1 ./... > "$d/t.json" 2>/dev/null
python3 - "$d/t.json" <<'P' || { echo "$id: TESTS FAIL"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); st=b.get('stable') or b.get('tests') or b.get('passed') or b
got={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e['Action'] in('pass','fail'): got[e['Package']+'/'+e['Test']]=e['Action']
bad=[k for k,v in got.items() if v=='fail']
print(sum(v=='pass' for v in got.values()),'pass',bad)
sys.exit(bool(bad))
P
if [ -z "${NODEMO:-}" ]; then
bash "$d/seed/demo.sh" > "$d/bad.out" 2>&1 && { echo "$id: DEMO PASSES WITH PATCH"; exit 1; }
grep -m3 -E '^ *[a-z_]*_test.go|DATA RACE|panic:|--- FAIL' "$d/bad.out"
fi
for c in "$@"; do
 mkdir -p "$d/v"; cp -a "$V/." "$d/v/"; rm -rf "$d/v/seeded"
 VSIM_REPO="$d/repo" "$d/v/check.sh" $c ${TIER:-quick} > "$d/$c.out" 2>&1; r=$?
 echo "$id: $c rc=$r $(grep -A1 -m1 'violation class\|check error\|held on' "$d/$c.out" | cut -c1-230 | tr '\n' ' ')"
 if [ -n "${KEEP:-}" ]; then cp "$d/$c.out" /tmp/pl/$id.$c.out; cp "$d"/v/evidence/replay/$c-*.json /tmp/pl/ 2>/dev/null; fi
done
