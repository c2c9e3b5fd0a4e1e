#!/usr/bin/env python3
"""check.py <ID> <quick|thorough> [--replay FILE] [--leg NAME]

exit 0: the property held on everything explored
exit 1: violated; prints  VIOLATION property=<ID> replay=<path>
exit 2: the check itself could not do its work (harness error)
"""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-vt-pycache'     # never load a stale .pyc
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)

from vt import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
