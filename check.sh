#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay FILE]   (VERIF_SEED selects the seed, default 1)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pyc PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
here="$(dirname "$(readlink -f "$0")")"
if [ "$1" = --setup ]; then   # nothing to build: only verify that what the checks need is there
    cd "$here" && exec /opt/venv/bin/python -W ignore -c "import vlib.env, hypothesis, jsonschema, jadn; print('ready')"
fi
exec /opt/venv/bin/python -W ignore "$here/run.py" "$@"
