#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> quick|thorough   or   check.py <ID> --replay FILE

Exit 0: the property held on everything explored.  Exit 1: violation (a VIOLATION line is printed).
Any other exit: the check itself failed."""
import os
import sys

PYTHON = '/opt/venv/bin/python'
ROOT = os.path.dirname(os.path.abspath(__file__))


def main():
    env = dict(os.environ)
    if env.get('RSB_CHECK_CHILD') != '1':
        env.update(RSB_CHECK_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
        python = PYTHON if os.path.exists(PYTHON) else sys.executable
        os.execve(python, [python, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, ROOT)
    from harness import deps
    deps.ensure()
    from harness import core
    sys.exit(core.main(sys.argv[1:]))


if __name__ == '__main__':
    main()
