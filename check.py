#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough] [--replay FILE] [--n N] [--seed S]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt import core
if __name__ == "__main__":
    mod = importlib.import_module("vt.checks." + sys.argv[1].lower())
    sys.exit(core.main(mod.CHECK, sys.argv[2:]))
