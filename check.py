#!/opt/venv/bin/python
"""check.py <PROPERTY> <quick|thorough>   decide one property
   check.py --replay FILE                 re-run a recorded violation
   check.py --setup                       self-test of the machinery"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONOPTIMIZE', None)
    os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, env)

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VMON_REPO', '/repo')
sys.path[0:0] = [HERE, os.path.join(REPO, 'poc')]

from vmon import harness  # noqa: E402

sys.exit(harness.main(sys.argv[1:], HERE, REPO))
