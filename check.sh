#!/bin/bash
# check.sh PROPERTY quick|thorough   (run from anywhere; judges /repo's working tree)
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python -B "$here/pbt/run.py" "$1" --tier "${2:-quick}" "${@:3}"
