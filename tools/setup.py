#!/usr/bin/env python3
"""Check that the offline environment the checks need is there; there is nothing to build."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONPATH=os.path.join(HERE, 'lib', 'stubs'), PYTHONDONTWRITEBYTECODE='1')
sys.exit(subprocess.call(
    ['/opt/venv/bin/python', '-c',
     'import launch, launch_xml, launch_yaml, launch_testing, lark, yaml; print(launch.__file__)'],
    env=env, cwd='/'))
