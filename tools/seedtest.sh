#!/bin/bash
# seedtest.sh ID [notest]: confirm a planted bug in a scratch copy and run its property's check on it
ID=$1; S=/verif/seeded/$ID; W=$(mktemp -d /tmp/seed_XXXXXX)
cp -a /repo $W/r; cd $W/r
PY=/opt/venv/bin/python
export PYTHONDONTWRITEBYTECODE=1
bash $S/demo.sh >/tmp/seed_$ID.clean 2>&1; echo "demo clean rc=$?"
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if git diff --name-only | grep -q '^c/'; then
  rm -rf build euphonic/_euphonic*.so; $PY setup.py build_ext --inplace >/tmp/seed_$ID.build 2>&1 || echo BUILD FAILED
fi
PYTHONPATH=$W/r bash $S/demo.sh >/tmp/seed_$ID.bug 2>&1; echo "demo patched rc=$?"
if [ "$2" != notest ]; then
 (cd tests_and_analysis/test; OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=agg PYTHONPATH=$W/r $PY -m pytest -q -p no:cacheprovider --import-mode=append -n 8 --timeout=300 -o junit_family=xunit2 --basetemp=$W/t --junitxml=$W/j.xml . >/tmp/seed_$ID.test 2>&1; tail -1 /tmp/seed_$ID.test
 $PY /opt/vp/results.py $W/o.json junit:$W/j.xml >/dev/null 2>&1
 $PY - $W/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
bp=b.get('passed',b.get('stable',b)); import os; w=os.path.dirname(sys.argv[1])+'/r'; op=set(t.replace(w,'/repo') for t in o['passed'])
bad=[t for t in bp if t not in op]
print('stable tests broken:',len(bad),bad[:5])
P
 )
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif; VF_REPO=$W/r $PY -m vf.run $P --tier quick 2>&1 | grep -v '^ ' | tail -4; 
/bin/rm -rf $W
