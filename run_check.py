#!/usr/bin/env python3
"""Entry point of every check:  python3 run_check.py <property> [--replay FILE] [--only SUB] [--examples N]

Re-executes itself under the interpreter of the repository with a fixed environment,
then hands over to pbt.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"

WANT = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONPATH": REPO,
    "PYTHONNOUSERSITE": "1",
    "MPLBACKEND": "Agg",
    "CUDA_VISIBLE_DEVICES": "",
    "WANDB_MODE": "disabled",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "VERIF_CHILD": "1",
}


def main():
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ)
        env.update(WANT)
        sys.stdout.flush()
        os.execve(VENV, [VENV, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from pbt import core
    sys.exit(core.main(sys.argv[1:], HERE, REPO))


if __name__ == "__main__":
    main()
