#!/bin/bash
# Nothing to build: checks that the interpreter and the solver are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "import vsym.core as c; print('z3', c.z3.get_version_string())"
