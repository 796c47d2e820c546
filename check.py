#!/opt/venv/bin/python
"""
check.py run C01 [--tier quick|thorough] [--runs N] [--seed N]
check.py replay FILE
check.py determinism [C01 ...]
check.py one C01 INDEX            (debugging: one run, full log)
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sim.boot     # noqa: must come first

from sim.cli import main    # noqa

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
