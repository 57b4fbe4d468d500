#!/usr/bin/env python
"""Runs the check of one property:  run.py C05 [--tier quick|thorough] [--replay FILE]

exit 0: held on everything generated; exit 1 + "VIOLATION property=.. replay=..": broken;
exit 2: error of the harness itself.
"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def _bootstrap():
    """re-executes itself with a fixed interpreter and environment (hash seed, no bytecode)"""
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "TF_CPP_MIN_LOG_LEVEL": "3",
            "TF_ENABLE_ONEDNN_OPTS": "0", "CUDA_VISIBLE_DEVICES": "", "OMP_NUM_THREADS": "1",
            "TF_NUM_INTRAOP_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1", "LC_ALL": "C.UTF-8",
            "PYTHONPYCACHEPREFIX": "/nonexistent/pycache"}
    if os.environ.get("_VERIF_BOOT") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env.pop("PYTHONPATH", None)
    env["_VERIF_BOOT"] = "1"
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B", os.path.join(HERE, "run.py")] + sys.argv[1:], env)


if __name__ == "__main__":
    _bootstrap()
    sys.path.insert(0, HERE)
    from lib import core
    sys.exit(core.main(sys.argv[1:]))
