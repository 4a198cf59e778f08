#!/opt/venv/bin/python
"""Check of one property: check.py <ID> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from hpmon.runner import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
