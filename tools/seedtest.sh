#!/bin/bash
# seedtest.sh ID [CHECK]: applies a planted bug to /repo, builds, tests, runs its demo and the check, and undoes it.
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
C=${2:-$P}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
T=$(mktemp -d)
run_demo() { cp "$D"/* "$T"/; rm -f "$T"/*.diff "$T"/meta.json; (cd /repo && bash "$T/demo.sh" >"$T/out" 2>&1); echo $?; }
bash /opt/vp/build.sh >/dev/null 2>&1
echo "$ID demo-clean=$(run_demo)"; tail -2 "$T/out"
git apply "$D/patch.diff" || { echo "$ID NO APPLY"; exit 2; }
if [ -z "$NOTEST" ]; then /verif/tools/repotest.sh 2>&1 | tail -1; else bash /opt/vp/build.sh 2>&1 | tail -1; fi
echo "$ID demo-patched=$(run_demo)"; tail -2 "$T/out"
if [ -z "$NOCHECK" ]; then (cd /verif && python3 tools/run.py $C 2>&1 | cut -c1-240 | head -6); fi
git checkout -q -- .
rm -rf "$T"
