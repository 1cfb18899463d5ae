"""C28 sampled scenarios: forecasts and samples against the data they are drawn from, and sample-average control against the plans of its samples."""
import contextlib
import io
import tempfile
import warnings

import numpy as np
import pandas as pd

from pymgrid.algos.Control import ControlOutput
from pymgrid.algos.saa.saa import SampleAverageApproximation
from pymgrid.utils.DataGenerator import ForecastArgs, ForecastArgSet, NoisyGridData, NoisyLoadData, NoisyPVData, SampleGenerator

from .. import gen, nonmod
from ..plan import optimum
from .c27 import audit, problem

RULE = ('One case draws forecasts and samples of random hourly data, with random parameters, and audits every value; every third case runs sample-average control '
        'on them. A situation is (days, features, grid pattern, noise, weights) of a draw or (components, samples, percentile) of a run.')
CASES = dict(quick=400, thorough=3000)
CHUNK = 2
MIN = dict(files=10, rows=30000, samples=300, dark=10000, parabolas=400, peaks=200, triangular=5, loads=20000, transitions=5000, pushed=20, repeated=80, runs=25, run_steps=100, ranks=60, to_the_end=5, errors=50, grids_of_parameters=5)
ASSUMPTIONS = ['data are whole days of hourly values; it is dark at midnight and at eleven at night and each day has sun',
               'frequencies are compared at six standard deviations']


def data(rng, days):
    """Random hourly series: (pv, load, grid status)."""
    pv = np.zeros((days, 24))
    x = np.arange(24)
    for d in range(days):
        a, b = int(rng.integers(0, 9)), int(rng.integers(13, 24))
        v = np.sin((x - a) / (b - a) * np.pi) * rng.uniform(.2, 1) * rng.uniform(.3, 1, 24)
        pv[d] = np.where((x > a) & (x < b), np.maximum(v, .01), 0)
    scale = float(rng.choice([1.0, 50.0, 2e4]))
    base = rng.uniform(.5, 2, 24)
    load = (base + rng.uniform(0, rng.choice([.05, .5, 2]), (days, 24))).ravel() * scale
    n = days * 24
    kind = rng.choice(['on', 'off', 'coin', 'rare', 'last'])
    grid = dict(on=np.ones(n), off=np.zeros(n), coin=rng.integers(0, 2, n), rare=(rng.random(n) > .05) * 1, last=np.r_[np.ones(n - 1), 0])[kind].astype(float)
    return pv.ravel() * scale * float(rng.choice([.5, 3.0])), load, grid, str(kind)


def frame(rng, v, name):
    k = rng.integers(3)
    return pd.Series(v, name=name) if k == 0 else pd.DataFrame({name: v}) if k == 1 else pd.DataFrame(v)


def reader(ctx, rng, cls, arg, src):
    """Noisy data given as they are or in a file."""
    if rng.integers(4):
        return cls(**{arg: src})
    ctx.count('files')
    with tempfile.TemporaryDirectory() as d:
        src.to_csv(f'{d}/data.csv', index=False)
        return cls(file_name=f'{d}/data.csv')


def daylight(pv):
    """(dawn, dusk) of each day: the last dark hour before and the first after the first stretch of sun."""
    out = []
    for day in pv.reshape(-1, 24):
        dawn = int(np.argmax(day > 0)) - 1
        out.append((dawn, dawn + 1 + int(np.argmax(day[dawn + 1:] == 0))))
    return out


def audit_pv(ctx, what, v, pv):
    ctx.check(len(v) == len(pv) and bool(np.isfinite(v).all()), 'rows', lambda: f'{what}: {len(v)} values for {len(pv)} hours, {np.isfinite(v).sum()} of them finite')
    ctx.check(bool((v >= 0).all()), 'negative', lambda: f'{what}: {v.min()}')
    x = np.tile(np.arange(24), len(pv) // 24)
    lim = np.repeat(np.array(daylight(pv)), 24, axis=0)
    dark = (x <= lim[:, 0]) | (x >= lim[:, 1])
    ctx.count('dark', int(dark.sum()))
    ctx.count('rows', len(v))
    ctx.check(bool((np.abs(v[dark]) <= 1e-9 * pv.max()).all()), 'dark', lambda: f'{what}: {v[dark].max()} in the dark')


def audit_load(ctx, what, v, load):
    ctx.check(len(v) == len(load) and bool(np.isfinite(v).all()), 'rows', lambda: f'{what}: {len(v)} values for {len(load)} hours')
    ctx.check(bool((v >= 0).all()), 'negative', lambda: f'{what}: {v.min()}')
    ctx.count('loads', len(v))


def audit_grid(ctx, what, v, source):
    ctx.check(len(v) == len(source) and bool(np.isin(v, (0, 1)).all()), 'grid', lambda: f'{what}: {v}')
    known = set(zip(source[:-1], source[1:]))
    seen = set(zip(v[:-1], v[1:]))
    ctx.count('transitions', len(v) - 1)
    final = {(s, s) for s in (0.0, 1.0) if s not in source[:-1]}
    ctx.check(seen <= known | final, 'grid', lambda: f'{what}: transitions {seen}, those of the data are {known}')
    ctx.check(v[0] in source[:-1], 'grid', lambda: f'{what}: starts with {v[0]}, never the case in the data')
    return known


def moments(v, weeks=7):
    """Mean and standard deviation of each weekday and hour, by row."""
    d = pd.DataFrame(v.reshape(-1, 24))
    g = d.groupby(d.index % weeks)
    mean, std = g.mean(), g.std().fillna(0)
    k = np.arange(len(d)) % weeks
    return mean.to_numpy()[k].ravel(), std.to_numpy()[k].ravel()


def draws(ctx, rng):
    """The noisy data of each series."""
    days = int(rng.choice([2, 7, 9, 21]))
    pv, load, grid, kind = data(rng, days)
    S = pv.max()
    seed = int(rng.integers(1 << 30))
    np.random.seed(seed)
    # load
    src = frame(rng, load, 'l')
    keep = src.copy()
    nl = reader(ctx, rng, NoisyLoadData, 'load_data', src)
    mean, std = moments(load)
    z = []
    for k in range(3):
        scale = float(rng.choice([0.0, .5, 1.0]))
        got = nl.sample(load_variance_scale=scale)['load'].to_numpy()
        audit_load(ctx, f'load sample {k}', got, load)
        sure = (mean > 10 * std * scale) & (std > 1e-9)
        flat = std * scale <= 1e-12
        ctx.check(bool((np.abs(got - mean)[flat] <= 1e-9 * load.max()).all()), 'load-mean', lambda: f'no spread, but {got[flat]} drawn about {mean[flat]}')
        clipped = got == load.min()
        ctx.check(bool(((np.abs(got - mean) <= 8 * std * scale + 1e-9 * load.max()) | clipped).all()), 'load-spread', lambda: f'{got} drawn about {mean} with deviation {std}')
        if scale:
            z.append(((got - mean)[sure] / (scale * std[sure])))
    z = np.concatenate(z) if z else np.zeros(0)
    if len(z) > 50:
        ctx.check(abs(z.mean()) < 6 / np.sqrt(len(z)) and abs(z.std() - 1) < 6 / np.sqrt(2 * len(z)) + .05, 'load-spread', lambda: f'{len(z)} draws of standard loads have mean {z.mean()}, deviation {z.std()}')
    ctx.check(src.equals(keep), 'source', lambda: 'load data changed')
    # grid
    src = frame(rng, grid, 'g')
    keep = src.copy()
    for dist in ('markov', 'naive'):
        ng = NoisyGridData(src, dist_type=dist)
        if dist == 'markov' and len(set(grid[:-1])) == 0:
            continue
        v = [np.asarray(ng.sample(), dtype=float) for _ in range(4)]
        for w in v:
            if dist == 'markov':
                audit_grid(ctx, 'grid sample', w, grid)
            else:
                ctx.check(len(w) == len(grid) and set(w) <= set(grid), 'grid', lambda: f'states {set(w)}, those of the data are {set(grid)}')
        if dist == 'markov':
            for s in (0.0, 1.0):
                n0 = (grid[:-1] == s).sum()
                p = ((grid[:-1] == s) & (grid[1:] == 1)).sum() / n0 if n0 else 1.0 * (s == 1)
                m = sum((w[:-1] == s).sum() for w in v)
                k = sum(((w[:-1] == s) & (w[1:] == 1)).sum() for w in v)
                ctx.check(abs(k - m * p) <= 6 * np.sqrt(m * p * (1 - p)) + 3 * (0 < p < 1), 'grid-frequency', lambda: f'{k} of {m} steps from {s} to 1, frequency {p} in the data')
        else:
            p, m, k = grid.mean(), 4 * len(grid), sum(w.sum() for w in v)
            ctx.check(abs(k - m * p) <= 6 * np.sqrt(m * p * (1 - p)) + 3 * (0 < p < 1), 'grid-frequency', lambda: f'{k} of {m} hours on, frequency {p} in the data')
    ctx.check(src.equals(keep), 'source', lambda: 'grid data changed')
    # pv
    src = frame(rng, pv, str(rng.choice(['pv', 'GH illum (lx)'])))
    keep = src.copy()
    npv = reader(ctx, rng, NoisyPVData, 'pv_data', src)
    features = int(rng.integers(1, 5)) if days >= 9 else 1
    if features > 1 or rng.integers(2):
        npv.data_munge()
        npv.max_min_curve_interpolate(num_feature_functions=features, **({} if rng.integers(2) else dict(params='houston')))
    else:
        npv.sample()
    lower = float(rng.choice([0.0, .25, .5]))
    upper = float(rng.choice([.5, .75, 1.0]))
    sun = daylight(pv)
    mid = [(a + b) / 2 for a, b in sun]
    lo, hi = (npv.most_light_curve_eval(k, day_hour_pairs=[(d, m) for d, m in enumerate(mid)]) for k in ('min', 'max'))
    lo, hi = np.atleast_1d(np.asarray(lo, dtype=float)), np.atleast_1d(np.asarray(hi, dtype=float))
    # triangular peaks need fitted curves that do not cross
    noise = str(rng.choice(['uniform', 'triangular'])) if lower < .5 < upper and (hi > lo + 1e-6 * S).all() and (hi > 1e-6 * S).all() else 'uniform'
    ctx.count(noise)
    peak = rng.choice([0.0, .5, 1.0]) if rng.integers(2) else None
    first = dict(lower=lower, upper=upper)
    v = npv.sample(noise_types=(noise, None), noise_params=(first, None), push_peak_val=peak is not None, push_peak_ratio=float(peak or 0))['pv'].to_numpy()
    audit_pv(ctx, 'pv forecast', v, pv)
    for d, (a, b) in enumerate(sun):
        day, m, w = v[24 * d:24 * d + 24], (a + b) / 2, (b - a) / 2
        h = int(m)
        form = 1 - ((np.arange(24) - m) / w) ** 2
        form[(np.arange(24) < a) | (np.arange(24) > b)] = 0
        top = day[h] / form[h]
        ctx.check(bool((np.abs(day - top * form) <= 1e-8 * S).all()), 'parabola', lambda: f'day {d}, sun from {a} to {b}: {day}')
        ctx.count('parabolas')
        l, u = lo[d], hi[d]
        if 0 <= l <= u and lower <= upper:
            l, u = l + lower * (u - l), u + (upper - 1) * (u - l)
            if peak is not None:
                most = pv[24 * d:24 * d + 24].max()
                l, u = l + peak * (most - l), u + peak * (most - u)
            ctx.check(l - 1e-7 * S <= top <= u + 1e-7 * S, 'peak', lambda: f'day {d}: peak {top} outside [{l}, {u}]')
            ctx.count('peaks')
        elif l <= u and u >= 0 and peak == 1:
            ctx.close(top, pv[24 * d:24 * d + 24].max(), 'peak', f'day {d}', scale=S)
    # samples about that forecast
    ratio = float(rng.choice([.01, .1, .25]))
    z = []
    for k in range(3):
        w = npv.sample(noise_types=(None, 'gaussian'), noise_params=(None, dict(std_ratio=ratio)))['pv'].to_numpy()
        audit_pv(ctx, f'pv sample {k}', w, pv)
        on = (v > 1e-6 * S) & (w > 0)
        z.append((w[on] / v[on] - 1) / ratio)
    z = np.concatenate(z)
    if len(z) > 50:
        ctx.check(abs(z.mean()) < 6 / np.sqrt(len(z)) and abs(z.std() - 1) < 6 / np.sqrt(2 * len(z)) + .05 and np.abs(z).max() < 8, 'pv-spread', lambda: f'{len(z)} draws about the forecast have mean {z.mean()}, deviation {z.std()}')
    w = npv.sample(noise_types=(None, None))['pv'].to_numpy()
    ctx.check(bool((np.abs(w - v) <= 1e-9 * S).all()), 'baseline', lambda: f'{w} without noise about {v}')
    r = float(rng.choice([0.0, .3, 1.0]))
    w = npv.sample(noise_types=(None, None), push_individual_vals=True, push_individual_ratio=r)['pv'].to_numpy()
    ctx.check(bool((np.abs(w - (v + r * (pv - v))) <= 1e-9 * S).all()), 'pushed', lambda: f'{w} with weight {r} on {pv}, forecast {v}')
    ctx.count('pushed')
    ctx.check(src.equals(keep), 'source', lambda: 'pv data changed')
    ctx.seen('draw', days, features, kind, noise, lower, upper, peak, ratio)


def accuracy(ctx, rng, gens, forecast, P):
    """Reported errors of a forecast, and grids of parameters to try."""
    err = {}
    for col, v in dict(pv=P.pv, load=P.load).items():
        f = forecast[col].to_numpy(dtype=float)
        on = (v != 0) | (f != 0)
        err[col] = float(np.mean(np.abs(v - f)[on] / v[on]))
    got = gens.validate_forecasts()
    for col in err:
        if np.isfinite(err[col]):
            ctx.close(float(got[col]), err[col], 'accuracy', f'mean relative error of {col}')
    if np.isfinite(list(err.values())).all():
        ctx.close(float(gens.validate_forecasts(forecasts=forecast, aggregate=True)), float(np.sqrt(np.mean(np.square(list(err.values()))))), 'accuracy', 'aggregate error')
        ctx.count('errors')
    if rng.integers(8) == 0:
        n = [int(x) for x in rng.integers(1, 4, 5)]
        top = float(rng.choice([.5, 2.0]))
        sets = ForecastArgs(*n, max_load_var_scale=top, max_pv_std_ratio=top / 4).param_sets
        space = lambda k, m: [m * i / (k - 1) for i in range(k)] if k > 1 else [0.0]
        pairs = [(lo, hi) for lo in space(n[0], 1) for hi in ([1 + (lo - 1) * i / (n[0] - 1) for i in range(n[0])] if n[0] > 1 else [1.0])]
        want = sorted((round(a, 9), round(b, 9), round(c, 9), round(d, 9), round(e, 9), round(g, 9)) for a, b in pairs for c in space(n[1], top / 4)
                      for d in space(n[2], top) for e in space(n[3], 1) for g in space(n[4], 1))
        have = []
        for x in sets:
            pv, (first, second) = x['pv_args'], x['pv_args']['noise_params']
            ctx.check(pv['push_peak_val'] is True and pv['push_individual_vals'] is True, 'parameters', lambda: f'{x}')
            have.append(tuple(round(float(y), 9) for y in (first['lower'], first['upper'], second['std_ratio'], x['load_args']['load_variance_scale'], pv['push_peak_ratio'], pv['push_individual_ratio'])))
        ctx.check(sorted(have) == want, 'parameters', lambda: f'{len(have)} sets of parameters for {n}, {len(want)} expected: {sorted(have)[:5]}')
        a, b = ForecastArgSet(preset_to_use=50), ForecastArgSet(pv_param_set={}, load_param_set={})
        u, v = float(rng.uniform(0, 1)), float(rng.uniform(0, 1))
        for x in (u, v):
            a.update_with_mape(x)
        b.update_with_mape(.5)
        ctx.close(a.mape_mean, (u + v) / 2, 'parameters', 'mean error')
        ctx.close(a.mape_std, abs(u - v) / 2, 'parameters', 'deviation of the errors')
        ctx.check((a < b, a > b, a == b, a == ForecastArgSet(preset_to_use=70)) == ((u + v) / 2 < .5, (u + v) / 2 > .5, False, False), 'parameters', lambda: f'comparison of errors {a.mape_mean} and .5')
        ctx.count('grids_of_parameters')


def microgrid(rng, kinds, horizon, days):
    pv, load, grid, kind = data(rng, days)
    n = 24 * days
    spec = nonmod.spec(rng, horizon=horizon, kinds=kinds, T=n)
    while {m['kind'] for m in spec['modules']} - {'balancing'} != set(kinds):
        spec = nonmod.spec(rng, horizon=horizon, kinds=kinds, T=n)
    by = {m['kind']: m for m in spec['modules']}
    scale = max(float(np.abs(np.array(by['load']['ts'])).max()), 1.0)
    by['load']['ts'] = [float(x) for x in load / load.max() * scale]
    by['renewable']['ts'] = [float(x) for x in pv / pv.max() * scale]
    if 'grid' in by:
        ts = np.array(by['grid']['ts'], dtype=float)
        by['grid']['ts'] = np.column_stack([ts[:, :3], grid]).tolist()
    return spec, kind


def case(ctx, rng, index):
    if index % 3 == 0:
        ctx.describe(dict(draws=True))
        return draws(ctx, rng)
    h = int(rng.choice([0, 1, 2, 4]))
    kinds = ['load', 'renewable', 'battery'] + [['grid'], ['genset'], ['grid', 'genset'], [], ['grid']][index % 5]
    spec, kind = microgrid(rng, kinds, h, int(rng.choice([2, 7, 8])))
    ctx.describe(spec)
    mg = gen.build(spec).to_nonmodular()
    P = nonmod.Params(spec)
    grid = P.grid['ts'][:, 3] if P.grid else np.zeros(P.T)
    preset = [None, 50, 70, 85][int(rng.integers(4))]
    seed = int(rng.integers(1 << 30))
    args = dict(preset_to_use=preset) if preset else {} if rng.integers(2) else dict(
        pv_args=dict(noise_params=(dict(lower=0.0, upper=1.0), dict(std_ratio=.1))), load_args=dict(load_variance_scale=float(rng.choice([0.0, 1.0]))))
    run = index % 3 == 1

    def generate():
        np.random.seed(seed)
        s = SampleAverageApproximation(mg, **args) if run else SampleGenerator(mg, **args)
        return s, s.forecasts.copy(), [x.copy() for x in s.sample_from_forecasts(n_samples=k)]
    k = int(rng.integers(1, 4))
    series = {n: getattr(mg, n).copy() for n in ('_load_ts', '_pv_ts') + (('_grid_status_ts', '_grid_price_import', '_grid_price_export', '_grid_co2') if P.grid else ())}
    gens, forecast, samples = generate()
    truth = gens.underlying_data.copy()
    ctx.check(list(truth.columns) == ['pv', 'load', 'grid'], 'columns', lambda: f'{list(truth.columns)}')
    for col, v in dict(pv=P.pv, load=P.load, grid=grid).items():
        ctx.check(bool(np.allclose(truth[col].to_numpy(dtype=float), v, rtol=1e-12)), 'underlying', lambda: f'{col} of the underlying data')
    ctx.check(len(samples) == k and len(gens.samples) == k, 'number', lambda: f'{len(samples)} samples instead of {k}')
    for what, f, source in [('forecast', forecast, grid)] + [(f'sample {i}', x, forecast['grid'].to_numpy(dtype=float)) for i, x in enumerate(samples)]:
        ctx.check(list(f.columns) == ['pv', 'load', 'grid'] and list(f.index) == list(range(P.T)), 'columns', lambda: f'{what}: columns {list(f.columns)}, {len(f)} rows for {P.T} hours')
        audit_pv(ctx, what, f['pv'].to_numpy(dtype=float), P.pv)
        audit_load(ctx, what, f['load'].to_numpy(dtype=float), P.load)
        audit_grid(ctx, what, f['grid'].to_numpy(dtype=float), source)
        ctx.count('samples')
    accuracy(ctx, rng, gens, forecast, P)
    if preset == 85:
        ctx.check(bool(np.allclose(forecast['pv'], P.pv, atol=1e-9 * P.pv.max())), 'pushed', lambda: 'forecast of full weight on the data is not the data')
        ctx.count('pushed')
    again = generate()
    ctx.check(again[1].equals(forecast) and all(a.equals(b) for a, b in zip(again[2], samples)), 'seed', lambda: 'the same seed gives other samples')
    ctx.count('repeated')
    for n, v in series.items():
        ctx.check(getattr(mg, n).equals(v), 'source', lambda: f'{n} changed by sampling')
    ctx.seen('generator', bool(P.grid), preset, kind, k)
    if run:
        control(ctx, rng, mg, P, gens, forecast, samples, truth, h + 1)
        for n, v in series.items():
            ctx.check(getattr(mg, n).equals(v), 'source', lambda: f'{n} changed by control')


def to_the_end(ctx, rng, mg, P, saa, horizon):
    """Runs of all the hours that leave a whole horizon, and of more hours than that."""
    n = P.T - horizon
    single = bool(rng.integers(2))
    out = saa.run_deterministic_on_forecast() if single else saa.run(optimal_percentile=.5)
    audit(ctx, P, out, 'saa', horizon, n)
    ctx.raises(ValueError, (lambda: saa.run_deterministic_on_forecast(forecast_steps=n + 1)) if single else (lambda: saa.run(forecast_steps=n + 1)), 'too-long', 'more steps than there are data for')
    ctx.raises(ValueError, lambda: saa.determine_optimal_actions([1.0, 2.0], float(rng.choice([-.1, 1.1]))), 'percentile', 'a percentile outside [0, 1]')
    ctx.count('to_the_end')


def control(ctx, rng, mg, P, saa, forecast, samples, truth, horizon):
    S = P.scale
    if P.T == 48 and not P.genset and rng.integers(2):
        return to_the_end(ctx, rng, mg, P, saa, horizon)
    steps = int(rng.integers(2, 6))
    percentile = float(rng.choice([0.0, .3, .5, .5, .99, 1.0]))
    keys = [k for k in ('battery_charge', 'battery_discharge', 'grid_import', 'grid_export', 'genset')
            if k.startswith('battery') or (P.genset if k == 'genset' else P.grid)]
    deterministic = rng.integers(4) == 0
    if deterministic:
        samples = [forecast]

    def go():
        return saa.run_deterministic_on_forecast(forecast_steps=steps) if deterministic else saa.run(forecast_steps=steps, optimal_percentile=percentile)
    out = go()
    ctx.count('runs')
    ctx.check(all(a.equals(b) for a, b in zip(saa.samples, samples)) or deterministic, 'samples-changed', lambda: 'samples changed by control')
    ctx.check(saa.forecasts.equals(forecast), 'samples-changed', lambda: 'forecast changed by control')
    audit(ctx, P, out, 'saa', horizon, steps)
    second = go()
    for k in keys:
        ctx.arr_close(second['action'][k], out['action'][k], 'repeat', f'{k} of a second run on the same samples', scale=S)
    for t in range(steps):
        ctx.count('run_steps')
        cmd = {k: float(out['action'][k][t]) for k in keys}
        soc = out['status']['battery_soc'][t]
        prefix = ControlOutput(names=tuple(out), dfs=tuple({k: list(v[:t + 1]) for k, v in d.items()} for d in out.values()), alg_name='saa', microgrid=mg)
        plans, optimal = [], False
        for x in samples:
            x = x.copy()
            for i in range(t + 1):
                x.iloc[i] = truth.iloc[i]
            plans.append(saa.mpc.mpc_single_step(x, prefix, t))
            df = plans[-1].df
            want = df['loss_load'].sum() * P.llc
            if P.genset:
                want += df['genset'].sum() * P.genset['fuel']
            if P.grid:
                g = P.grid['ts'][t:t + horizon]
                want += (df['grid_import'].to_numpy() * g[:, 0] - df['grid_export'].to_numpy() * g[:, 1]).sum()
            ctx.close(plans[-1].cost, want, 'planned-cost', f't={t}: cost of a plan', scale=S * max(1, P.llc) * horizon)
            # the same, by an independent optimiser
            rows = P.rows(t, t + horizon)
            rows.load, rows.pv = x['load'].to_numpy(dtype=float)[t:t + horizon], x['pv'].to_numpy(dtype=float)[t:t + horizon]
            if P.grid:
                g = rows.grid['ts'].copy()
                g[:, 3] = x['grid'].to_numpy(dtype=float)[t:t + horizon]
                rows.grid = dict(rows.grid, ts=g)
            kw = problem(rows, 0, soc, horizon)
            first = dict(battery=cmd['battery_discharge'] - cmd['battery_charge'])
            if P.grid:
                first['grid'] = cmd['grid_import'] - cmd['grid_export']
            if P.genset:
                first['genset'] = cmd['genset']
            if not optimal:
                best, got = optimum(**kw), None
                for slack in (1e-6, 3e-6, 1e-5):
                    got = optimum(**kw, first=first, slack=slack * S) if got is None else got
                price = max([1e-3, P.llc, P.battery['cost']] + ([float(np.abs(kw['grid']['price_import']).max()), float(np.abs(kw['grid']['price_export']).max())] if P.grid else []) +
                            ([kw['genset']['cost']] if P.genset else []))
                optimal = got is not None and got <= best + 1e-5 * S * price * max(1.0, np.sqrt(horizon))
        ctx.check(optimal, 'saa-optimal', lambda: f't={t}: {cmd} starts an optimal plan for none of {len(samples)} samples')
        costs = sorted(p.cost for p in plans)
        rank = min(int(np.floor(len(plans) * percentile)), len(plans) - 1)
        tol = 1e-7 * S * max(1.0, P.llc, 5.0)
        near = [p for p in plans if abs(p.cost - costs[rank]) <= tol]
        ctx.check(any(all(abs(p.first_dict.get(k, 0) - cmd[k]) <= 1e-5 * S for k in keys) for p in near), 'percentile',
                  lambda: f't={t}: {cmd}; the plan at percentile {percentile} of costs {costs} starts with {[p.first_dict for p in near]}')
        ctx.check(abs(saa.determine_optimal_actions(list(plans), percentile).cost - costs[rank]) <= tol, 'percentile', lambda: f't={t}: percentile {percentile} of {costs}')
        ctx.count('ranks')
        ctx.seen('control', bool(P.grid), bool(P.genset), len(samples), percentile, tuple(int(np.sign(round(v / S, 6))) for v in cmd.values()))


def run_case(ctx, rng, index):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        case(ctx, rng, index)
