#!/bin/bash
# runseed.sh ID [PROP...] : run checks against a planted bug applied to /repo, then undo it.
i=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$i/patch.diff || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for p in $P; do VERIF_SEED=1 timeout 880 python3 check.py $p > /tmp/runseed.$i.$p.log 2>&1; echo "$i $p rc=$? $(grep -E '^(VIOLATION|failing case|failed obl|undecided)' /tmp/runseed.$i.$p.log | head -4 | tr '\n' '|')"; done
