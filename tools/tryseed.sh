#!/bin/bash
# tryseed.sh <id>...: applies each planted bug to /repo, builds, tests, runs its demo and its check, undoes it. (development only)
for id in "$@"; do
	d=/verif/seeded/$id
	prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	h=$(python3 - "$prop" <<'P'
import json,sys
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']==sys.argv[1]: print(c['quick_cmd'])
P
)
	git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
	export DEMO_TARGET=/tmp/demo-target
	(cd /repo && bash "$d/demo.sh" >/tmp/demo.clean 2>&1); c=$?
	git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
	t=skip
	if [ -z "$NOTEST" ]; then
		bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
		t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def passed(x):
    for k in ('stable','passed'):
        if k in x: return set(x[k])
    raise SystemExit(str(list(x))[:200])
m=passed(b)-passed(r)
print('tests-ok' if not m else 'TESTS-FAIL '+' '.join(sorted(m)[:3]))
P
)
	fi
	(cd /repo && bash "$d/demo.sh" >/tmp/demo.bug 2>&1); b=$?
	(cd /verif && timeout 600 bash -c "$h" >/tmp/seed.check 2>&1); k=$?
	git -C /repo checkout -q -- .
	echo "$id [$prop]: demo clean=$c bug=$b; $t; check=$k $(grep -c VIOLATION /tmp/seed.check)"
done
