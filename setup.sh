#!/bin/bash
# Checks that the installed tools are the ones the checks use; nothing is built ahead of time.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore - <<'P'
import sys
sys.path.insert(0, '.')
import vx
import z3
import numpy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'repository', vx.REPO)
P
