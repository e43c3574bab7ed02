#!/bin/bash
# try.sh ID...: build, test and demonstrate each planted bug, and run its check (and say what each did).
cd /repo && git diff --quiet || { echo "/repo is not clean"; exit 1; }
V=/verif
for id in "$@"; do
    d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    if [ -z "$FAST" ]; then
        bash /opt/vp/build.sh >/tmp/try-build.log 2>&1; bash $d/demo.sh >/tmp/try-demo0.log 2>&1; clean=$?
    fi
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    if [ -z "$FAST" ]; then
        bash /opt/vp/build.sh >/tmp/try-build.log 2>&1; b=$?
        bash /opt/vp/test.sh /tmp/try-test.json >/tmp/try-test.log 2>&1
        lost=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/try-test.json'))
ok=r.get('passed') or [k for k,v in r.items() if v in ('pass','passed','ok')]
print(len(set(b)-set(ok)))
P
)
        bash $d/demo.sh >/tmp/try-demo.log 2>&1; bug=$?
    fi
    (cd $V; python3 check.py $prop >/tmp/try-check-$id.log 2>&1); c=$?
    git checkout -q -- .
    echo "$id $prop: clean demo $clean, build $b, lost tests $lost, demo $bug, check $c: $(grep -a -B1 ^VIOLATION /tmp/try-check-$id.log | head -1 | cut -c1-150)"
done
[ -z "$FAST" ] && bash /opt/vp/build.sh >/dev/null 2>&1
