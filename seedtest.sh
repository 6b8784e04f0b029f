#!/bin/bash
# seedtest.sh ID [notests] : confirm a planted change in /repo itself (applied and undone): demo 0 before, builds, tests pass, demo !=0 after, then run the check
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 9; }
bash $D/demo.sh >/dev/null 2>&1; a=$?
git apply $D/patch.diff || { echo noapply; exit 9; }
bash $D/demo.sh >/dev/null 2>&1; b=$?
t=skipped
if [ "$2" != notests ]; then bash /opt/vp/build.sh >/tmp/sb.log 2>&1 && bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1; t=$(python3 - <<'X'
import json
d=json.load(open('/tmp/st.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(d['passed']), [t.split('::')[0] for t in b['stable'] if t not in d['passed']])
X
); fi
cd /verif; ./check.py $P > /tmp/sc.log 2>&1; c=$?
cd /repo; git checkout -- .
echo "$ID $P demo_before=$a demo_after=$b tests=$t check_exit=$c $(grep VIOLATION /tmp/sc.log)"; grep -v VIOLATION /tmp/sc.log | head -5 | cut -c1-250
