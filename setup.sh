#!/bin/bash
# nothing to build: the checks import lips from /repo; make sure the interpreter and its dependencies are there
cd "$(dirname "$0")" && mkdir -p evidence && /opt/venv/bin/python -c "import numpy, mpmath, sympy, pyadic, syngular"
