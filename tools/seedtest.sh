#!/bin/bash
# seedtest.sh ID [check]: confirm a planted bug (builds, stable tests, demo both ways) and run its check against it
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo dirty repo; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $D/demo.sh >/tmp/seed.$1.clean 2>&1; A=$?
git apply $D/patch.diff || exit 2
T=/tmp/seed.$1.json
bash /opt/vp/test.sh $T >/dev/null 2>&1
timeout 300 bash $D/demo.sh >/tmp/seed.$1.bad 2>&1; B=$?
N=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('$T'))['passed'])
print(len(b-p))")
if [ "$2" != nocheck ]; then (cd /verif; timeout 900 python3 vf/vf.py $P > /tmp/seed.$1.check 2>&1; echo "check rc=$?"; grep VIOLATION /tmp/seed.$1.check); fi
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "$1: demo clean=$A bad=$B, stable tests failing=$N"
