#!/bin/sh
# Nothing is compiled; verifies that the interpreter and the tree under check can be imported.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo')
import elsie, lxml, cairocffi, PyPDF2, marko
from mc import engine, svgobs
print('setup ok')
"
