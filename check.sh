#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] : decide one property.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
scratch=$(mktemp -d /tmp/hfverif.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR=$scratch/mpl TMPDIR=$scratch
mkdir -p "$MPLCONFIGDIR"
vt=/opt/veriftools/pyvenv/lib/python3.12/site-packages
export PYTHONPATH="$here${HFTOOLS_REPO:+:$HFTOOLS_REPO}"
export HFV_SITE=$vt
/opt/venv/bin/python -W ignore -c '
import os, sys
sys.path.append(os.environ["HFV_SITE"])
from symex.main import main
main()' "$@"
rc=$?
exit $rc
