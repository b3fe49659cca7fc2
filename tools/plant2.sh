#!/bin/bash
# plant2.sh ID [no]: like plant.sh, in the scratch copy $PL (default /tmp/pl) of /repo
V=/verif; D=$V/seeded/$1; PL=${PL:-/tmp/pl}; cd "$PL" || exit 1
[ -z "$(git status --porcelain)" ] || { echo "copy not clean"; exit 1; }
trap 'git -C '"$PL"' checkout -q -- .' EXIT
P=${P:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
rm -rf "/tmp/dm/$1"; mkdir -p "/tmp/dm/$1" && for f in $D/*; do case $f in *.diff|*.json) ;; *) cp $f /tmp/dm/$1/;; esac; done
bash /tmp/dm/$1/demo.sh; a=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /tmp/dm/$1/demo.sh; b=$?
M="make --no-print-directory -j8 -f /opt/vp/repo.mk BUILD=_build/ CC=gcc -o csfml -o _build/csfml -o util/external/CSFML/lib/libcsfml-system.so"
export LC_ALL=C.UTF-8; TZ=UTC $M test >/tmp/dm/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/dm/build.log; exit 1; }
TZ=UTC timeout 120 python3 /opt/vp/run_tests.py /tmp/dm/out.json >/dev/null 2>&1; rm -f tests/data/MSAVTST.PTC gmon.out
t=$(python3 -c "
import json;o=set(json.load(open('/tmp/dm/out.json'))['passed']);b=json.load(open('/opt/vp/BASELINE.json'));s=b.get('stable') or b.get('passed') or b.get('tests')
s=[x if isinstance(x,str) else x['name'] for x in s];print('tests-ok' if all(x in o for x in s) else 'TESTS-FAIL '+str([x for x in s if x not in o][:3]))")
c=skipped; if [ "$2" != no ]; then case "$P" in P22|P23) export SBC_ASAN=1;; esac
 X=$(SBC_REPO=$PL bash $V/sim/build.sh|tail -1); read -r _ NQ _ < <(grep -E "^$P[[:space:]]" $V/checks.tsv); rm -rf /tmp/dm/rp; mkdir -p /tmp/dm/rp; out=$($X run --prop $P --seed ${S:-1} --n $NQ --jobs 8 --out /tmp/dm/rp 2>&1); c=$?; echo "$out" | grep -a "violation class" | head -2; echo "$out" | tail -1; fi
echo "$1 $P demo-clean=$a demo-patched=$b $t check=$c"
