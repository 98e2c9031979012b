#!/bin/bash
# reverttest.sh: every recorded repair is reverted in a scratch copy; the check of its property must report the defect again
SB=/tmp/w/sb2; [ -d $SB ] || cp -a /repo $SB
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm=isolated
git -C $SB fetch -q /repo HEAD; git -C $SB checkout -qf FETCH_HEAD
grep '^fixed' /verif/known_findings.txt | while read -r _ p c rest; do
  p=${p#property=}
  [ -n "$1" ] && [[ " $* " != *" $c "* ]] && continue
  git -C $SB reset -q --hard FETCH_HEAD
  if ! git -C $SB revert --no-commit $c >/dev/null 2>&1; then git -C $SB reset -q --hard FETCH_HEAD; echo "$c $p CONFLICT"; continue; fi
  (cd /verif && VERIF_REPO=$SB timeout 900 ./check.sh $p </dev/null >/tmp/w/rc.out 2>&1); rc=$?
  echo "$c $p check=$rc viol=$(grep -c "^VIOLATION property=$p " /tmp/w/rc.out) $(grep -m1 '   case' /tmp/w/rc.out | cut -c1-120)"
done
git -C $SB reset -q --hard FETCH_HEAD
