"""C10 observations."""
from .. import gen
from ..drive import drive
from ..monitors import Obs

RULE = ('One case is one random microgrid driven through a random history; a situation is (kind, forecaster, horizon, distance to '
        'the end of the series) of one state.')
CASES = dict(quick=400, thorough=6000)
MIN = dict(accessors=3000, steps=8000, states_checked=10000, past_end=500, resets=400)
ASSUMPTIONS = ['noise-valued forecast entries are only checked for their bounds']


def run_case(ctx, rng, index):
    spec = gen.spec(rng, long=True, crowd=True, T=int(rng.choice([3, 5, 8, 12, 26])))
    ctx.describe(spec)
    drive(ctx, rng, spec, [Obs()], n_ops=120 if ctx.thorough else 60, ops=dict(series=.02))
