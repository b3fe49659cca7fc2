#!/bin/bash
# plant.sh ID [check]: verifies /verif/seeded/ID (patch applies, builds, stable tests pass, demo 0 without / non-0 with) and runs its property's quick check on it
V=/verif; D=$V/seeded/$1; cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1
mkdir -p /tmp/dm/$1 && cp $D/demo.sh /tmp/dm/$1/ && for f in $D/*; do case $f in *.diff|*.json) ;; *) cp $f /tmp/dm/$1/;; esac; done
bash /tmp/dm/$1/demo.sh; a=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/dm/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/dm/build.log; exit 1; }
bash /tmp/dm/$1/demo.sh; b=$?
bash /opt/vp/test.sh /tmp/dm/out.json >/dev/null 2>&1; t=$(python3 -c "
import json;o=set(json.load(open('/tmp/dm/out.json'))['passed']);b=json.load(open('/opt/vp/BASELINE.json'));s=b.get('stable') or b.get('passed') or b.get('tests')
s=[x if isinstance(x,str) else x['name'] for x in s];print('tests-ok' if all(x in o for x in s) else 'TESTS-FAIL '+str([x for x in s if x not in o][:3]))")
c=skipped; [ "$2" != no ] && { out=$(VERIF_SEED=1 VERIF_TIER=quick bash $V/check.sh $P quick 2>&1); c=$?; echo "$out" | tail -3; }
echo "$1 $P demo-clean=$a demo-patched=$b $t check=$c"
