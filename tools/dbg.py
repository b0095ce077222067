"""Execute the case of a replay file in this process (debugging): dbg.py Cxx FILE"""
import importlib
import json
import os
import sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [HOME, os.path.join(HOME, 'lib'), os.path.join(HOME, 'lib', 'stubs')] + [
    os.path.join(repo, p) for p in ('launch', 'launch_xml', 'launch_yaml', 'launch_testing',
                                    'launch_pytest')]
os.environ.setdefault('ROS_LOG_DIR', '/tmp/roslog')
from vf import worker  # noqa
mod = importlib.import_module('checks.' + sys.argv[1].lower())
print(json.dumps(worker.run_case(mod, json.load(open(sys.argv[2]))['case']))[:3000])
