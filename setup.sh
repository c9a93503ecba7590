#!/bin/bash
# nothing to compile; checks that the tools the checks need are there and that the engine agrees with numpy on random terms
cd "$(dirname "$0")"
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
/opt/venv/bin/python -m pydv.selftest
