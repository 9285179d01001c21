#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--seed N] | --replay FILE"""
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "harness"))
import core  # noqa: E402

sys.exit(core.main())
