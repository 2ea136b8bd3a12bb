#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Replay files hold one case; --replay runs exactly that case against /repo's working tree."""
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, ROOT)
from gostmon import runner  # noqa: E402

sys.exit(runner.main())
