"""Nothing to build: the checks import pymgrid from /repo/src. Verifies that the interpreter and its packages are there."""
import os
import sys

sys.path[:0] = ['/repo/src', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
import gym, numpy, pandas, scipy, yaml, cvxpy  # noqa
import pymgrid  # noqa
assert pymgrid.__file__.startswith('/repo/src/')
from harness import core  # noqa
print('ready')
