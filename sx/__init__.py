"""Solver-based checking of mapry: symbolic execution of the real code."""
import os
import sys

sys.dont_write_bytecode = True
_ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for _p in ('/opt/venv/lib/python3.12/site-packages',
           os.path.join(_ROOT, 'replay')):
    if _p not in sys.path:
        sys.path.insert(0, _p)
