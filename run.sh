#!/bin/sh
# Runs one check: run.sh C01 [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VERIF_SEED:-1}" PYTHONIOENCODING=utf-8 \
LC_ALL=C.UTF-8 exec /opt/venv/bin/python -m mc.run "$@"
