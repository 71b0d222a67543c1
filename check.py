#!/usr/bin/python3
"""python3 /verif/check.py C01 [-v] [--thorough]"""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.report import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
