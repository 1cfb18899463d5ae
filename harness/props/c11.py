"""C11 forecasts."""
import numpy as np

from .. import gen
from ..drive import drive, Session
from ..monitors import Obs

RULE = ('One case is one random microgrid with forecasters driven through a random history rich in forecaster and horizon changes; '
        'a situation is (kind, forecaster, horizon, distance to the end). Every eighth case samples a noisy forecaster repeatedly.')
CASES = dict(quick=480, thorough=7000)
MIN = dict(steps=4000, op_forecaster=1500, op_series=300, states_checked=8000, past_end=300, forecast_calls=3000, noise_samples=10000, noise_later=20, user_fc=300, common_horizons=500)
ASSUMPTIONS = ['user-defined forecasters are pure and keep the sign of the true values, as validated at construction',
               'noise is checked for zero mean and its standard deviation over repeated forecasts (tolerance six standard errors)']


class Forecast(Obs):
    def live(self, S):
        """forecast() of each module agrees with its state."""
        for r in S.ref.ts:
            m = S.module(r.id)
            h = r.fc['h'] if r.fc else 0
            S.ctx.check(m.forecast_horizon == h, 'horizon', lambda: f'{r.id} horizon {m.forecast_horizon} expected {h}')
            if r.fc and isinstance(r.fc['f'], float) and r.fc['f'] > 0:
                continue
            f = m.forecast()
            if h == 0:
                S.ctx.check(f is None or np.size(f) == 0, 'no-forecast', lambda: f'{r.id} {f}')
            else:
                lo, hi = r.value_bounds()
                S.ctx.arr_close(f, r.forecast(S.observe().steps[r.id]), 'forecast', f'{r.id} forecast', scale=max(np.abs(lo).max(), np.abs(hi).max()))
            S.ctx.count('forecast_calls')
            S.ctx.count('user_fc', int(bool(r.fc) and r.fc['f'] in gen.FCS))
        hs = {r.fc['h'] if r.fc else 0 for r in S.ref.ts}
        if len(hs) == 1:
            S.ctx.check(S.mg.get_forecast_horizon() in hs, 'common-horizon', lambda: f'{S.mg.get_forecast_horizon()} expected {hs}')
        elif hs:
            S.ctx.raises(ValueError, S.mg.get_forecast_horizon, 'common-horizon', f'horizons {hs}')
        S.ctx.count('common_horizons', int(len(hs) == 1))

    def step(self, S, rec):
        super().step(S, rec)
        self.live(S)

    def other(self, S, op, pre, post):
        super().other(S, op, pre, post)
        self.live(S)
        if op == 'forecaster':
            changed = {i for i in post.state if post.state[i] != pre.state[i]}
            S.ctx.check(all(S.ref.by_id[i].is_ts for i in changed), 'forecaster-side-effect', lambda: f'{changed}')
            for r in S.ref.ts:      # the current value itself is not affected
                for c in r.components:
                    S.ctx.check(post.state[r.id][f'{c}_current'] == pre.state[r.id][f'{c}_current'], 'current-value')


def noise(ctx, rng):
    """Noisy forecasts are centred on the true values with the requested standard deviation."""
    T = 60
    spec = gen.spec(rng, T=T, scale=100.0, kinds=['load', 'renewable'], need=('load', 'renewable'), max_each=1, window=False, forecasts=False)
    iu, rel = bool(rng.integers(2)), bool(rng.integers(2))
    std = float(rng.choice([.005, .02, .04] if rel else [.01, .5, 2.0]))       # small enough for nothing to be clipped
    h = int(rng.integers(1, 8))
    for m in spec['modules']:
        if m['kind'] in ('load', 'renewable'):
            base = rng.uniform(40, 60, T)
            base[rng.integers(T)] = 200.0        # wide bounds, so that nothing is clipped
            m.update(ts=[float(x) for x in base], form='array')
            m['fc'] = dict(f=std, h=h, iu=iu, rel=rel)
    later = int(rng.integers(3))   # the forecaster is given at construction, or to the modules or the microgrid later
    ctx.describe(dict(spec, later=later))
    if later:
        spec = dict(spec, modules=[dict(m, fc=None if rng.integers(2) else dict(f='oracle', h=h, iu=False, rel=False)) if 'fc' in m else m for m in spec['modules']])
    S = Session(ctx, rng, spec)
    if later:
        kw = dict(forecaster=std, forecast_horizon=h, forecaster_increase_uncertainty=iu, forecaster_relative_noise=rel)
        if later == 1:
            for r in S.ref.ts:
                S.module(r.id).set_forecaster(**kw)
        else:
            S.mg.set_forecaster(**kw)
        ctx.count('noise_later')
    steps = int(rng.integers(0, 20))
    for _ in range(steps):
        S.mg.run(S.mg.sample_action())
    for r in S.ref.ts:
        true = np.abs(r.vals[steps + 1:steps + 1 + h, 0])
        if true.max() > 100:
            continue
        n = 1500
        x = np.array([np.abs(S.module(r.id).forecast())[:, 0] for _ in range(n)]) - true
        want = std * (np.abs(r.vals).mean() if rel else 1.0)
        grow = want * (1 + np.log(1 + np.arange(h))) if iu else np.full(h, want)
        ctx.check((np.abs(x.mean(0)) <= 6 * grow / np.sqrt(n)).all(), 'noise-mean', lambda: f'{r.id} mean {x.mean(0)} std {want}')
        sd = x.std(0)
        if iu:
            ctx.check(abs(sd[0] - want) <= .12 * want and (sd[1:] >= sd[:-1] * .88).all() and (h < 3 or sd[-1] > 1.2 * sd[0]), 'noise-growth',
                      lambda: f'{r.id} std per step {sd}, requested {want} increasing')
        else:
            ctx.check((np.abs(sd - want) <= .12 * want).all(), 'noise-std', lambda: f'{r.id} std {sd} requested {want}')
        ctx.count('noise_samples', n)
        ctx.seen('noise', std, h, iu, rel, r.kind)


def run_case(ctx, rng, index):
    if index % 8 == 0:
        return noise(ctx, rng)
    spec = gen.spec(rng, long=True, T=int(rng.choice([4, 6, 10, 15, 26, 40])), need=('load', 'renewable') if index % 2 else ('load', 'grid'))
    ctx.describe(spec)
    drive(ctx, rng, spec, [Forecast()], n_ops=100 if ctx.thorough else 40, ops=dict(forecaster=.3, reset=.05, yaml=.03, series=.05))
