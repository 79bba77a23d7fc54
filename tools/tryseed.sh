#!/bin/bash
# tryseed.sh ID [check...]: in a scratch copy of /repo: builds, runs the tests and the demonstration with the seeded change, then the checks (default: its property's, quick).
ID=$1; shift; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$ID; W=/tmp/seedwork; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W; rsync -a --delete --exclude=.git --exclude=/_build /repo/ $W/repo/ ; mkdir -p $W/vp; cp /opt/vp/*.sh /opt/vp/*.py $W/vp/; cp -r /opt/vp/harness $W/vp/
sed -i "s#^R=/repo#R=$W/repo#" $W/vp/harness/common.sh; sed -i "s#/opt/vp/harness/common.sh#$W/vp/harness/common.sh#" $W/vp/*.sh
cd $W/repo; bash $W/vp/build.sh > $W/build0.log 2>&1 || { echo "base build failed"; exit 2; }
if [ -z "$NODEMO" ]; then bash $S/demo.sh > $W/demo0.log 2>&1; echo "$ID demo on the unchanged tree: $?"; fi
patch -p1 -s < $S/patch.diff || exit 2
bash $W/vp/build.sh > $W/build.log 2>&1 || { echo "$ID DOES NOT BUILD"; tail -5 $W/build.log; exit 2; }
if [ -z "$NODEMO" ]; then
bash $S/demo.sh > $W/demo1.log 2>&1; echo "$ID demo with the change: $? ($(tail -1 $W/demo1.log | cut -c1-200))"
bash $W/vp/test.sh $W/out.json > $W/test.log 2>&1
python3 - <<PY
import json
o=json.load(open('$W/out.json')); b=json.load(open('/opt/vp/BASELINE.json')); m=sorted(set(b['stable'])-set(o['passed'])); print('$ID tests broken:', m if m else 'none')
PY
fi
for c in ${@:-$P}; do PILLOW_REPO=$W/repo PILLOW_BUILD=$W/vbuild timeout 900 python3 $V/tools/check.py $c quick > $W/check.log 2>&1; echo "$ID check $c: exit $? $(grep -c '^VIOLATION' $W/check.log) | $(grep -v '^(' $W/check.log | head -1 | cut -c1-230)"; done
