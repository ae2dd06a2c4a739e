#!/bin/sh
# Nothing to compile: the checks extract and load /repo's sources on every run.  Sanity only.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c 'import z3' && /opt/venv/bin/python -c 'import lark, yaml, osrf_pycommon'
