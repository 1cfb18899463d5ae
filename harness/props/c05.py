"""C05 reward."""
from .. import gen
from ..drive import drive
from ..monitors import Reward

RULE = ('One case is one random microgrid driven through a random history of steps, resets, copies, reloads, queries and setting changes; a situation is (kind, sign of the reward, direction, kind of cost) of one module in one step.')
CASES = dict(quick=400, thorough=7000)
MIN = {'battery_terms': 3000, 'genset_terms': 2000, 'grid_terms': 3000, 'balancing_terms': 5000}
ASSUMPTIONS = ['rewards to 1e-9 of the largest possible term']


def run_case(ctx, rng, index):
    spec = gen.spec(rng, long=True, shaper=bool(index % 4 == 0))
    ctx.describe(spec)
    drive(ctx, rng, spec, [Reward()], n_ops=150 if ctx.thorough else 60, ops=dict(series=.02))
