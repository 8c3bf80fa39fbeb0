#!/bin/bash
# tryseed.sh ID [notest] : demo on clean tree, then with the patch: build, tests, demo, check; restores /repo
id=$1; d=/verif/seeded/$id; cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(mktemp -d /tmp/seed.XXXX); cp $d/* $t/
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $t/demo.sh >$t/o1 2>&1; echo "$id demo clean: $? (want 0) $(tail -1 $t/o1)"
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >$t/b 2>&1 || { echo BUILD FAILED; tail -5 $t/b; git checkout -q -- .; exit 1; }
timeout 300 bash $t/demo.sh >$t/o2 2>&1; echo "$id demo patched: $? (want !=0) $(tail -1 $t/o2)"
if [ "$2" != notest ]; then bash /opt/vp/test.sh $t/r.json >/dev/null 2>&1; python3 - $t/r.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
want=b.get('passed') or b.get('stable') or b.get('tests') or b
p=set(map(str,r['passed'])); m=[x for x in want if str(x) not in p]
print('tests missing:', len(m), m[:5])
P
fi
cd /verif; timeout 900 python3 check.py $prop quick >$t/c 2>/dev/null; echo "$id check $prop: $? $(grep VIOLATION $t/c) $(head -1 $t/c | cut -c1-300)"
git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf $t
