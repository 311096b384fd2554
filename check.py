#!/usr/bin/env python3-vt
"""check.py <property> <quick|thorough>"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execvp(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import runner

if __name__ == "__main__":
    rc = runner.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    sys.stdout.flush()
    os._exit(rc)
