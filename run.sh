#!/bin/bash
# Entry point of every check:  bash run.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]
# Sets the environment the repository's own test-runner uses, then starts the driver.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1
export OPENMDAO_REPORTS=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_mpi_yield_when_idle=1
exec "${VERIF_PY:-/opt/venv/bin/python}" "$here/check.py" "$@"
