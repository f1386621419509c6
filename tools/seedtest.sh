#!/bin/bash
# seedtest.sh ID [nobuild]: validates a planted bug and runs its property's check against it (development aid)
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain -uno)" ] || { echo dirty; exit 9; }
if [ "$2" != check ]; then
bash $d/demo.sh >/tmp/sd/demo0.log 2>&1; a=$?
fi
git apply $d/patch.diff || exit 9
if [ "$2" != check ]; then
bash $d/demo.sh >/tmp/sd/demo1.log 2>&1; b=$?
bash /opt/vp/build.sh >/tmp/sd/build.log 2>&1; c=$?
bash /opt/vp/test.sh /tmp/sd/t.json >/tmp/sd/test.log 2>&1
n=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/sd/t.json'))
def s(x): return set(x['stable']) if 'stable' in x else set(x.get('passed') or [k for k,v in x.items() if v in('passed','pass',True)])
try:
    print(len(s(b)-s(t)), sorted(s(b)-s(t))[:3])
except Exception as e: print('?',e,list(b)[:3],list(t)[:3])
P
)
echo "$1: demo clean=$a patched=$b build=$c lost tests: $n; $(tail -1 /tmp/sd/demo1.log)"
fi
cd /verif && python3 check.py $p > /tmp/sd/check.log 2>&1; r=$?
git -C /repo checkout -q -- .
echo "$1: check $p exit $r"; grep "^[CFVU]" /tmp/sd/check.log | cut -c1-260 | head -${LINES:-6}
