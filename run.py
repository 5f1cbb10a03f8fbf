#!/usr/bin/env python3
"""Entry point of every check: run.py C01 [--tier quick|thorough] [--seed N] | run.py FILE --replay"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('JV_REEXEC'):
    os.environ['JV_REEXEC'] = '1'
    os.execv(VENV, [VENV, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from jv import runner  # noqa: E402

if __name__ == '__main__':
    runner.main()
