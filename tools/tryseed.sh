#!/bin/bash
# usage: tryseed.sh ID [notest]   validates seeded/ID in a scratch copy and runs its check there
id=$1; d=/verif/seeded/$id; w=/tmp/seed-$id
pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
rm -rf "$w"; cp -a /repo "$w"
cp -r "$d" "$w.demo"; 
cd "$w"
(timeout 300 bash "$w.demo/demo.sh" >/tmp/seed-$id.d0 2>&1); r0=$?
git apply "$d/patch.diff" || echo "PATCH DOES NOT APPLY"
(timeout 300 bash "$w.demo/demo.sh" >/tmp/seed-$id.d1 2>&1); r1=$?
t=skipped
if [ "$2" != notest ]; then
  mkdir -p /tmp/seed-$id.pl; cp -r /opt/vp/plugins/. /tmp/seed-$id.pl/; sed -i "s#/repo#$w#g" /tmp/seed-$id.pl/*.py; sed "s#/repo#$w#g; s#/opt/vp/plugins#/tmp/seed-$id.pl#" /opt/vp/env.sh > /tmp/seed-$id.env.sh; sed "s#/repo#$w#g; s#^. /opt/vp/env.sh#. /tmp/seed-$id.env.sh#" /opt/vp/test.sh > /tmp/seed-$id.test.sh
  bash /tmp/seed-$id.test.sh /tmp/seed-$id.json >/tmp/seed-$id.t 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-$id.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed'):
            if k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return set(map(str,x))
print('missing', sorted(names(b)-names(r))[:3], len(names(b)))
P
)
fi
c=$(cd /verif; VC_REPO=$w VC_EVID=/tmp/seed-$id.ev VC_JOBS=${VC_JOBS:-6} timeout 900 /opt/venv/bin/python -m checks.${pid,,} 2>/dev/null)
rc=$?
echo "== $id ($pid): demo unchanged=$r0 patched=$r1; tests $t; check rc=$rc"
echo "$c" | grep -E "VIOLATION|UNDECIDED|$pid:" | cut -c1-300
rm -rf "$w" "$w.demo"
