#!/bin/bash
# seedtest.sh ID...: apply each seeded bug to /repo, run its property's check, undo (development helper)
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(./check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id: rc=$rc $(echo "$out" | tail -3 | tr '\n' ' ')"
  python3 - "$id" "$rc" "$out" <<'P'
import json,sys,os
f='/verif/props/seeded_results.json'
d=json.load(open(f)) if os.path.exists(f) else {}
i,rc,o=sys.argv[1:4]
k='missed'
if rc=='1': k='failed obligation' if 'no-failing-input-found' in o else ('failing input + failed obligation' if 'proof failed' in o else 'failing input (bounded check)')
d[i]=k
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
done
