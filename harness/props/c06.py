"""C06 dispatch order."""
import numpy as np
from pymgrid.modules import LoadModule, RenewableModule
from .. import gen
from ..drive import drive
from ..monitors import Dispatch

RULE = ('One case is one random microgrid driven through a random history of steps, resets, copies, reloads, queries and setting changes; a situation is (loss load, overgeneration, curtailment, use, numbers of renewables and loads, zero net) of one step.')
CASES = dict(quick=480, thorough=9000)
MIN = {'steps': 10000, 'loss_load_steps': 1500, 'overgeneration_steps': 1500, 'curtailment_steps': 1500, 'mixed_sign_rejected': 900}
ASSUMPTIONS = ['energies to 1e-9 of the largest energy']


def run_case(ctx, rng, index):
    spec = gen.spec(rng, long=True, need=('load', 'renewable'), max_each=4)
    ctx.describe(spec)
    drive(ctx, rng, spec, [Dispatch()], n_ops=150 if ctx.thorough else 60, ops=dict(series=.02))
    # a series says what is drawn or available, in either sign convention but not in both
    n = int(rng.integers(2, 40))
    size = rng.choice([1e-6, 1.0, 1e3])
    vals = np.abs(rng.normal(size=n)) * size
    vals[rng.uniform(size=n) < rng.choice([0, .3])] = 0.0
    mixed = vals.copy()
    i, j = rng.choice(n, 2, replace=False)
    mixed[i], mixed[j] = size * rng.uniform(.01, 1), -size * rng.uniform(.01, 1)
    for cls in (LoadModule, RenewableModule):
        ctx.raises(ValueError, lambda: cls(time_series=mixed), 'mixed-sign', f'{cls.__name__} of {mixed}')
        m = cls(time_series=vals if rng.integers(2) else -vals)
        ctx.raises(ValueError, lambda: setattr(m, 'time_series', mixed), 'mixed-sign', f'{cls.__name__} given {mixed}')
        ctx.check(np.array_equal(np.abs(m.time_series).ravel(), vals), 'rejected-series-kept', lambda: f'{m.time_series.ravel()} expected {vals}')
        now = m.current_load if cls is LoadModule else m.current_renewable
        ctx.check(now == vals[0], 'sign-convention', lambda: f'{cls.__name__}: {now} expected {vals[0]}')
        ctx.count('mixed_sign_rejected', 2)
