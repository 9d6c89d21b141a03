#!/bin/sh
# run.sh PROPERTY [--tier quick|thorough] ...
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -m symex.runner "$@"
