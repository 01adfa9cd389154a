#!/bin/bash
# seedcheck.sh ID [PROP...]: apply one planted change to /repo, confirm build+tests+demo, run checks, undo.
set -u
id=$1; shift
d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); echo "demo clean: $?"
git -C /repo apply $d/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/seedb.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/seedb.log; exit 9; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seedt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
st=set(b if isinstance(b,list) else b.get('stable',b.get('passed',b.get('tests',[]))))
print('stable', len(st), 'failing stable:', sorted(st-set(r['passed']))[:5])
P
(cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); echo "demo patched: $?"
for p in $props; do (cd /verif; SA_PATCHED=1 timeout 900 python3 sa/run.py $p > /tmp/seedp.log 2>&1; echo "check $p rc=$?"; grep -E 'violated|VIOLATION|BROKEN' /tmp/seedp.log | cut -c1-220 | head -4); done
