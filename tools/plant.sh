#!/bin/bash
# development helper: plant.sh ID [notest] [nocheck]  - confirms a planted bug in a scratch copy mounted over /repo in a namespace of its own
id=$1; shift
export PL=${PL:-/tmp/pl}
[ -d $PL ] || { cp -a /repo $PL; chown -R root:root $PL; }
cd $PL && git checkout -q -f HEAD -- . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD -- . 2>/dev/null
cat > /tmp/plant.$$.in <<X
mount --bind $PL /repo; cd /repo
bash /opt/vp/build.sh > /tmp/plant.$id.build0 2>&1 || { echo CLEAN BUILD FAILED; exit 1; }
D=\$(mktemp -d); cp -r /verif/seeded/$id/. \$D; rm -f \$D/*.diff \$D/meta.json
timeout 300 bash \$D/demo.sh > /tmp/plant.$id.demo0 2>&1; echo "demo clean: \$?"
git apply /verif/seeded/$id/patch.diff || { echo NO APPLY; exit 1; }
bash /opt/vp/build.sh > /tmp/plant.$id.build1 2>&1 || { echo PATCHED BUILD FAILED; grep -m5 error: /tmp/plant.$id.build1; git checkout -q -- .; exit 1; }
timeout 300 bash \$D/demo.sh > /tmp/plant.$id.demo1 2>&1; echo "demo patched: \$?"
case "$*" in *nocheck*) ;; *) P=\$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"); cd /verif; timeout 900 python3-vt check.py \$P --tier quick > /tmp/plant.$id.check 2>&1; echo "check: \$?"; grep -E "^(FAIL|VIOLATION|NOTE|UNDEC)" /tmp/plant.$id.check | cut -c1-300; tail -1 /tmp/plant.$id.check|cut -c1-250; cd /repo;; esac
case "$*" in *notest*) ;; *) bash /opt/vp/test.sh /tmp/plant.$id.json > /dev/null 2>&1; python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=set(json.load(open('/tmp/plant.$id.json'))['passed'])
m=[x for x in b if x not in r]; print('tests lost:', m[:5], len(m))
Y
;; esac
git checkout -q -- .; rm -rf \$D
X
unshare -Urm bash /tmp/plant.$$.in 2>&1; rm -f /tmp/plant.$$.in
