"""C07 clock and episodes."""
from .. import gen
from ..drive import drive, Session
from ..monitors import Clock

RULE = ('One case is one random microgrid driven through a random history rich in resets, window changes, copies and reloads, or '
        'through whole episodes; a situation is (done, distance to the final step, first step, window).')
CASES = dict(quick=480, thorough=8000)
MIN = dict(steps=8000, resets=800, episodes=300, windows=150, op_deepcopy=150, op_yaml=80, no_ts=3, bad_windows=150)
ASSUMPTIONS = ['steps are taken while every series still has values; a step beyond the end of a series is an error by design']


def run_case(ctx, rng, index):
    if index % 40 == 0:
        spec = gen.spec(rng, long=True, kinds=['battery', 'genset'], need=('battery',), window=False)
        ctx.count('no_ts')
    else:
        spec = gen.spec(rng, long=True, traj=False, T=int(rng.choice([3, 4, 6, 9, 15, 26])))
        if index % 4 == 0 and spec['T'] >= 5:
            lo, hi = spec['window'] or [spec['ctor_initial'], spec['ctor_final'] or spec['T']]
            a = int(rng.integers(lo, hi))
            spec['traj'] = ['det', a, int(rng.integers(a + 1, hi + 1))]
    ctx.describe(spec)
    drive(ctx, rng, spec, [Clock()], n_ops=150 if ctx.thorough else 70,
          ops=dict(reset=.12, window=.05, deepcopy=.03, yaml=.02, forecaster=.02))
