#!/bin/bash
# tryseed.sh ID [CHECK...]: demo on clean tree, then patched: build, stable tests, demo, checks; reverts
id=$1; shift; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -z "$NODEMO" ]; then bash -c "cd /repo && bash $d/demo.sh" >/tmp/demo0.$$.log 2>&1; r0=$?; fi
git -C /repo apply $d/patch.diff || exit 9
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/b.$$.log 2>&1; rb=$?
bash /opt/vp/test.sh /tmp/ts.$$.json >/tmp/t.$$.log 2>&1
rt=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/ts.$$.json'));p=set(t.get('passed',[]));print('tests', len(b-p),'lost')")
(cd /repo && bash $d/demo.sh) >/tmp/demo1.$$.log 2>&1; r1=$?
echo "$id: demo clean=$r0 build=$rb $rt demo patched=$r1"
fi
for c in ${*:-$prop}; do (cd /verif && python3 check.py --property $c | tail -${TAIL:-4} | cut -c1-300); done
git -C /repo checkout -- .
