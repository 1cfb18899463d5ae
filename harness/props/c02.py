"""C02 battery."""
from .. import gen
from ..drive import drive
from ..monitors import Battery

RULE = ('One case is one random microgrid driven through a random history of steps, resets, copies, reloads, queries and setting changes; a situation is (efficiency, transition model, full, empty, direction, limit hit) of one battery in one step.')
CASES = dict(quick=480, thorough=9000)
MIN = {'battery_steps': 8000, 'battery_full': 400, 'battery_empty': 400, 'resets': 200}
ASSUMPTIONS = ['charges are compared to 1e-9 of capacity']


def run_case(ctx, rng, index):
    spec = gen.spec(rng, long=True, need=('load', 'battery'), max_each=3, forecasts=False)
    ctx.describe(spec)
    drive(ctx, rng, spec, [Battery()], n_ops=150 if ctx.thorough else 60, ops=dict(soc=.03, reset=.05, series=.01))
