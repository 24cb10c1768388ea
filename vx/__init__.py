"""Symbolic execution of the repository's own Python code over an SMT solver."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
_TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)          # appended: the repo's numpy must win
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
