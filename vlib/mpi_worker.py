"""Runs cases on several ranks: mpirun -n R python mpi_worker.py, one JSON case per line on
standard input of rank 0, one JSON result per line on its standard output."""

import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))

# everything printed by the code under test goes elsewhere than the results
RESULTS = os.fdopen(os.dup(1), "w")
NULL = os.open(os.devnull, os.O_WRONLY)
os.dup2(NULL, 1)

import numpy as np  # noqa: E402
from mpi4py import MPI  # noqa: E402

from vlib import parallel_case  # noqa: E402

COMM = MPI.COMM_WORLD


def default(obj):
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    if isinstance(obj, np.generic):
        return obj.item()
    raise TypeError(type(obj))


def main():
    scratch = os.environ["VERIF_MPI_SCRATCH"]
    os.chdir(scratch)
    if COMM.rank == 0:
        RESULTS.write("ready\n")
        RESULTS.flush()
    while True:
        line = sys.stdin.readline() if COMM.rank == 0 else None
        # wait without taking the processor from others
        request = COMM.Ibarrier()
        while not request.Test():
            time.sleep(0.002)
        line = COMM.bcast(line)
        if not line:
            return
        case = json.loads(line)
        try:
            result = parallel_case.run(case, COMM)
        except BaseException:  # pylint: disable=broad-except
            with open(os.path.join(scratch, f"error.{COMM.rank}"), "w") as f:
                f.write(traceback.format_exc())
            # the other ranks may wait for this one forever
            os._exit(17)
        results = COMM.gather(result)
        if COMM.rank == 0:
            RESULTS.write(json.dumps(results, default=default) + "\n")
            RESULTS.flush()


main()
