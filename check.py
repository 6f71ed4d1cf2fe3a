#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]  (run with /opt/venv/bin/python)"""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import einv.boot  # noqa: E402,F401
from einv import properties  # noqa: E402

if __name__ == "__main__":
    rc = properties.main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
