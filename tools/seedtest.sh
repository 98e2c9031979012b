#!/bin/bash
# seedtest.sh [-c] id...: validate planted bugs on a scratch copy (demo clean/patched, stable tests) and run the check of their property
SB=/tmp/w/sb; [ -d $SB ] || cp -a /repo $SB
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm=isolated
CHECKONLY=0; [ "$1" = -c ] && { CHECKONLY=1; shift; }
git -C $SB fetch -q /repo HEAD; git -C $SB checkout -qf FETCH_HEAD
for id in "$@"; do
  git -C $SB checkout -qf -- .
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r=""
  if [ $CHECKONLY = 0 ]; then
    (cd $SB && timeout 300 bash $d/demo.sh >/tmp/w/demo0 2>&1); r="demo-clean=$?"
  fi
  git -C $SB apply $d/patch.diff || { echo "$id PATCH FAILS"; continue; }
  if [ $CHECKONLY = 0 ]; then
    (cd $SB && timeout 300 bash $d/demo.sh >/tmp/w/demo1 2>&1); r="$r demo-bug=$?"
    r="$r tests=$(cd $SB && PYTHONPATH=$SB/src:/opt/vp/plugin PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 MPLCONFIGDIR=/tmp/w/mpl timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_dgapy -n 8 -W ignore --tb=no --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/w/j.xml tests >/tmp/w/t.out 2>&1; python3 - <<'P'
import json,sys
sys.path.insert(0,'/opt/vp')
import subprocess
subprocess.run(['python3','/opt/vp/results.py','/tmp/w/o.json','junit:/tmp/w/j.xml'],stdout=subprocess.DEVNULL)
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/w/o.json'))['passed'])
print('ok' if b<=p else 'FAIL:'+','.join(sorted(b-p))[:200])
P
)"
  fi
  t0=$SECONDS
  (cd /verif && VERIF_REPO=$SB timeout 900 ./check.sh $prop >/tmp/w/c.out 2>&1); rc=$?
  v=$(grep -c "^VIOLATION property=$prop " /tmp/w/c.out)
  echo "$id $prop $r check=$rc viol=$v $((SECONDS-t0))s $(grep -m1 '   case' /tmp/w/c.out | cut -c1-150)"
done
git -C $SB checkout -qf -- .
