#!/bin/bash
# tryseed.sh <seed id> [notest]: demo on the clean tree, then with the patch: build+stable tests, demo, the property's quick check.
cd /verif; s=/verif/seeded/$1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
(cd /repo && bash $s/demo.sh >/tmp/demo.out 2>&1); a=$?
git -C /repo apply $s/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
t=skipped
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/ts.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
print('tests-ok' if set(st)<=set(r['passed']) else 'TESTS-FAIL %s'%(set(st)-set(r['passed'])))"); fi
(cd /repo && bash $s/demo.sh >/tmp/demo2.out 2>&1); b=$?
python3 bin/check.py $prop --tier quick > /tmp/chk.out 2>&1; c=$?
v=$(grep -c "^VIOLATION property=$prop" /tmp/chk.out)
echo "$1 $prop demo clean=$a patched=$b tests=$t check_exit=$c violations=$v"
[ $c = 1 ] || tail -3 /tmp/chk.out
