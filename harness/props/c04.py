"""C04 grid."""
from .. import gen
from ..drive import drive
from ..monitors import Grid

RULE = ('One case is one random microgrid driven through a random history of steps, resets, copies, reloads, queries and setting changes; a situation is (columns, status, direction, limit hit, zero/positive prices and limits, last step) of one grid in one step.')
CASES = dict(quick=400, thorough=7000)
MIN = {'imports': 2000, 'exports': 1000, 'outage_steps': 500, 'outage_requests': 300, 'resets': 100}
ASSUMPTIONS = ['energies to 1e-9 of the limits']


def run_case(ctx, rng, index):
    spec = gen.spec(rng, long=True, need=('load', 'grid'))
    ctx.describe(spec)
    drive(ctx, rng, spec, [Grid()], n_ops=150 if ctx.thorough else 60, ops=dict(series=.02))
