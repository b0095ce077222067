#!/usr/bin/env python3
"""Entry point of the checks: run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))

from vf import engine  # noqa: E402

if __name__ == '__main__':
    sys.exit(engine.main(sys.argv[1:], HERE))
