#!/bin/bash
# nothing to build: the checks run on the installed interpreters; make sure what they need is there
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "import sys; sys.path.insert(0,'.'); from vc.loadz3 import z3; print('z3', z3.get_version_string())"
