#!/bin/bash
# Nothing to build: the checks import /repo/src directly.  Verifies that everything the
# checks need is present.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 1
export PYTHONDONTWRITEBYTECODE=1 OMPI_MCA_ess_singleton_isolated=1 OPENMDAO_REPORTS=0
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
PYTHONPATH="$here/vendor:$here:${VERIF_REPO:-/repo}/src" "${VERIF_PY:-/opt/venv/bin/python}" -W ignore -c "
import hypothesis, openmdao, h5py, mpi4py, pyrevolve, rkopenmdao
print('hypothesis', hypothesis.__version__, 'openmdao', openmdao.__version__, rkopenmdao.__file__)
"
