#!/bin/bash
# seedtest.sh NAME [check ids...]: confirms seeded/NAME in scratch copies of /repo and /verif bind-mounted in a private
# mount namespace (nothing outside the copies changes): builds, passes the stable tests, demo 0 without / nonzero with it,
# and runs the given checks (default: the property of meta.json) on the patched tree.
n=$1; shift
W=/tmp/seed_ws
src=/verif/seeded/$n
mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
git -C $W/repo checkout -q -- . ; (cd $W/repo && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD)
rm -rf $W/verif $W/demo; mkdir -p $W/verif; cp -a /verif/{checks.py,run.py,mc,known_findings.txt} $W/verif/; mkdir -p $W/vbuild; ln -sfn $W/vbuild $W/verif/build
cp -a $src $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
pid=$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")
ids=${@:-$pid}
cp $src/patch.diff $W/patch.diff
unshare -Urm bash -c "
mount --bind $W/repo /repo || exit 9
mount --bind $W/verif /verif || exit 9
cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo BASE BUILD FAIL; exit 8; }
bash $W/demo/demo.sh >$W/d0.log 2>&1; echo \"$n demo clean: \$?\"
git apply $W/patch.diff || { echo APPLY FAIL; exit 7; }
bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
base=b.get('passed') or b.get('stable')
print('$n tests missing:',[x for x in base if x not in set(t['passed'])])
P
timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; echo \"$n demo patched: \$?\"
for i in $ids; do s=\$SECONDS; python3 /verif/run.py \$i quick >$W/c_\$i.log 2>&1; echo \"$n check \$i: exit \$? \$((SECONDS-s))s \$(grep -m1 VIOLATION $W/c_\$i.log | cut -c1-200)\"; done
git checkout -q -- .
" 
