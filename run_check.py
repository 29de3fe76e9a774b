#!/usr/bin/env python3
"""run_check.py PROPERTY [quick|thorough]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import props, runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv, props.TABLE))
