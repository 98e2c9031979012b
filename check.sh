#!/bin/bash
# check.sh <property id> [quick|thorough]: explore the property on /repo's current tree (nothing to compile: the
# package is pure Python and is imported straight from the working tree).
cd "$(dirname "$0")" || exit 2
VERIF_REPO=${VERIF_REPO:-/repo}
export VERIF_REPO HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$VERIF_REPO/src:$PWD"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm=isolated OMPI_MCA_hwloc_base_binding_policy=none
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
