#!/opt/venv/bin/python
"""Run one check: check.py P01 [--tier quick|thorough] [--replay FILE] [-v]."""
import os, sys
ENV = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg",
       "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rv import core
if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1].upper(), sys.argv[2:]))
