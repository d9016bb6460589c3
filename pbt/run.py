#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core  # noqa: E402

if __name__ == "__main__":
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    rc = core.main(mod.CHECK, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
