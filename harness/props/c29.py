"""C29 malformed configurations and requests are rejected, well-formed ones at the limits accepted."""
import copy

import numpy as np
import pandas as pd

from pymgrid import Microgrid
from pymgrid.algos import ModelPredictiveControl, RuleBasedControl
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv
from pymgrid.modules import BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule

RULE = ('One case makes random well-formed parameters of every module, builds and runs them at their limits and in every form a series can be given in, '
        'then spoils one parameter at a time and offers wrong names, keys, actions and lists to what was built; a situation is (what was spoilt, how).')
CASES = dict(quick=480, thorough=9000)
MIN = dict(rejected=25000, accepted=4000, runs=1500, unchanged=4000)
ASSUMPTIONS = ['any exception is a rejection', 'user forecasters are judged on series without zeros, on which a wrong sign shows in every row']


def form(rng, a):
    """The same series in one of the forms a user may give it in."""
    k = rng.choice(['array', 'list', 'tuple', 'series', 'frame', 'int'])
    a = np.asarray(a, dtype=float)
    if k == 'list':
        return k, a.tolist()
    if k == 'tuple':
        return k, tuple(map(tuple, a)) if a.ndim == 2 else tuple(a)
    if k == 'series' and a.ndim == 1:
        return k, pd.Series(a, index=pd.date_range('2020-01-01', periods=len(a), freq='h'))
    if k == 'frame':
        return k, pd.DataFrame(a)
    if k == 'int' and (a == a.astype(int)).all():
        return k, a.astype(int)
    return 'array', a.copy()


def run_case(ctx, rng, index):
    T = int(rng.integers(4, 30)) if rng.integers(6) else int(rng.integers(100, 400))
    size = float(rng.choice([1e-3, 1.0, 50.0, 1e5]))
    pos = lambda *s: size * rng.uniform(.1, 1, size=s)
    ctx.describe(dict(T=T, size=size))

    def accept(what, fn):
        try:
            out = fn()
        except Exception as e:
            ctx.check(False, 'well-formed-rejected', f'{what}: {type(e).__name__}: {e}')
        ctx.check(out is not None, 'built')
        ctx.count('accepted')
        ctx.seen('accepted', *([what] if isinstance(what, str) else what))
        return out

    def reject(what, fn):
        ctx.raises(Exception, fn, 'malformed-accepted', what)
        ctx.count('rejected')
        ctx.seen('rejected', what.split(':')[0])

    # ---- grids
    status = (rng.uniform(size=T) < rng.choice([0, .5, 1])).astype(float)
    prices = pos(T, 3) * rng.choice([0, 1], size=3)
    four = np.c_[prices, status]
    imp, exp = float(pos()) * rng.choice([0, 1]), float(pos()) * rng.choice([0, 1])
    cols = four if rng.integers(2) else prices
    k, ts = form(rng, cols)
    grid_kw = dict(max_import=imp, max_export=exp, time_series=ts)
    grid = accept(('grid', k, cols.shape[1], imp == 0, exp == 0), lambda: GridModule(**grid_kw))
    ctx.check(np.array_equal(grid.time_series, np.c_[prices, status if cols.shape[1] == 4 else np.ones(T)]), 'series-as-given', lambda: f'{k}: {grid.time_series}')
    arr = np.array(cols)
    bad = arr.copy()
    bad[rng.integers(T), rng.integers(3)] = -float(pos())
    reject('grid: negative value in series', lambda: GridModule(**dict(grid_kw, time_series=form(rng, bad)[1])))
    reject('grid: negative max_import', lambda: GridModule(**dict(grid_kw, max_import=-float(pos()))))
    reject('grid: negative max_export', lambda: GridModule(**dict(grid_kw, max_export=-float(pos()))))
    for n in (1, 2, 5, 6):
        reject(f'grid {n}: columns', lambda: GridModule(**dict(grid_kw, time_series=form(rng, pos(T, n))[1])))
    reject('grid: flat series', lambda: GridModule(**dict(grid_kw, time_series=pos(T))))
    bad = four.copy()
    bad[rng.integers(T), 3] = rng.choice([.5, 2, -1, 1e-3, .999])
    reject('grid: status', lambda: GridModule(**dict(grid_kw, time_series=form(rng, bad)[1])))
    # ---- gensets
    lo = float(pos()) * rng.choice([0, 1])
    hi = lo + float(pos()) * rng.choice([0, 1])
    hi = hi or float(pos())
    gen_kw = dict(running_min_production=lo, running_max_production=hi, genset_cost=float(pos()), start_up_time=int(rng.integers(3)), wind_down_time=int(rng.integers(3)))
    genset = accept(('genset', lo == 0, lo == hi), lambda: GensetModule(**gen_kw))
    reject('genset: minimum above maximum', lambda: GensetModule(**dict(gen_kw, running_min_production=hi * (1 + rng.choice([1e-6, .1, 3])))))
    # ---- batteries
    cap = float(pos())
    least = cap * float(rng.choice([0, .2, .5]))
    eff = float(rng.choice([1.0, .9, .01]))
    start = float(rng.choice([least, cap, (least + cap) / 2]))
    init = dict(init_charge=start) if rng.integers(2) else dict(init_soc=start / cap)
    bat_kw = dict(min_capacity=least, max_capacity=cap, max_charge=float(pos()), max_discharge=float(pos()), efficiency=eff)
    battery = accept(('battery', eff, start == least, start == cap), lambda: BatteryModule(**bat_kw, **init))
    ctx.close(battery.current_charge, start, 'initial-charge', scale=cap)
    for e in (0, 0.0, -.5, 1.0001, 2, -eff):
        reject(f'battery: efficiency {e}', lambda: BatteryModule(**dict(bat_kw, efficiency=e), **init))
    reject('battery: no initial charge', lambda: BatteryModule(**bat_kw))
    # ---- loads and renewables
    series = {}
    for cls in (LoadModule, RenewableModule):
        vals = pos(T)
        if rng.integers(3) == 0:
            vals = np.round(vals)
        k, ts = form(rng, vals if rng.integers(2) else -vals)
        m = accept((cls.__name__, k), lambda: cls(time_series=ts))
        ctx.check(np.array_equal(np.abs(m.time_series).ravel(), vals), 'series-as-given', lambda: f'{cls.__name__} {k}: {m.time_series.ravel()} expected {vals}')
        series[cls] = m, np.where(vals == 0, size, vals)
    # ---- forecasters
    bad_forecasters = {'name': 'orcale', 'dict': {'a': 1}, 'list': [1.0], 'object': object(),
                       'raising': lambda val_c, val_c_n, n: 1 / 0, 'too few': lambda val_c, val_c_n, n: val_c_n[:-1],
                       'too many': lambda val_c, val_c_n, n: np.r_[val_c_n, val_c_n], 'nothing': lambda val_c, val_c_n, n: None,
                       'text': lambda val_c, val_c_n, n: np.full(np.shape(val_c_n), 'a'), 'sign': lambda val_c, val_c_n, n: -val_c_n,
                       'last sign': lambda val_c, val_c_n, n: np.r_[val_c_n[:-1], -val_c_n[-1:]]}
    cls = (LoadModule, RenewableModule)[rng.integers(2)]
    vals = series[cls][1]
    h = int(rng.integers(1, 6))
    for what, f in bad_forecasters.items():
        reject(f'forecaster: {what}', lambda: cls(time_series=vals, forecaster=f, forecast_horizon=h))
        m = cls(time_series=vals, forecaster='oracle', forecast_horizon=h)
        reject(f'forecaster set: {what}', lambda: m.set_forecaster(f, forecast_horizon=h))
    gts = np.c_[pos(T, 3), np.ones(T)]
    f = bad_forecasters[rng.choice(list(bad_forecasters))]
    reject('forecaster of grid', lambda: GridModule(max_import=1, max_export=1, time_series=gts, forecaster=f, forecast_horizon=h))
    # ---- microgrids
    load, pv = (series[c][0] for c in (LoadModule, RenewableModule))
    mods = [load, ('pv', pv), battery] + [m for m in (grid, genset) if rng.integers(2)]
    mg = accept('microgrid', lambda: Microgrid(list(mods)))
    for what, x in (('none', None), ('number', 3), ('text', 'load'), ('module', load)):
        reject(f'modules: {what}', lambda: Microgrid(x))
    for what, x in (('number', 3), ('text', 'load'), ('none', None), ('class', LoadModule), ('named number', ('a', 3)), ('triple', ('a', load, 1))):
        reject(f'module: {what}', lambda: Microgrid(list(mods) + [x]))
    mg.set_forecaster('oracle', forecast_horizon=h)
    reject('forecaster of unknown module', lambda: mg.set_forecaster({'nobody': 'oracle'}, forecast_horizon=h))
    reject('forecaster: unknown kind', lambda: mg.set_forecaster('orcale', forecast_horizon=h))
    # ---- environments
    keys = [k for m in mg.modules.to_list() for k in m.state_dict()]
    some = [str(x) for x in rng.choice(sorted(set(keys)), size=int(rng.integers(1, 3)), replace=False)]
    accept('observation keys', lambda: ContinuousMicrogridEnv.from_microgrid(mg, observation_keys=some))
    wrong = str(rng.choice(['nothing', keys[0][:-1], keys[0] + '_', keys[0].upper(), '']) or 'x')
    for cls in (ContinuousMicrogridEnv, DiscreteMicrogridEnv):
        reject('observation keys', lambda: cls.from_microgrid(mg, observation_keys=some + [wrong]))
        reject('observation keys: all', lambda: cls.from_microgrid(mg, observation_keys=[wrong]))
    cont = accept('continuous', lambda: ContinuousMicrogridEnv.from_microgrid(mg))
    disc = accept('discrete', lambda: DiscreteMicrogridEnv.from_microgrid(mg))
    n = disc.action_space.n

    def untouched(env, fn, what):
        before = copy.deepcopy((env.state_dict(), env.current_step, len(env.log), getattr(env, 'actions_list', None), env.action_space))
        reject(what, fn)
        after = (env.state_dict(), env.current_step, len(env.log), getattr(env, 'actions_list', None), env.action_space)
        ctx.check(repr(before) == repr(after), 'changed-by-rejected', lambda: f'{what}: {before} then {after}')
        ctx.count('unchanged')

    for env in (cont, disc):
        env.reset()
        env.action_space.seed(int(rng.integers(1 << 30)))
        for _ in range(int(rng.integers(0, min(3, T - 2)))):
            env.step(env.action_space.sample())
            ctx.count('runs')
    for a in (-1, n, n + 3, -n - 1, .5):
        untouched(disc, lambda: disc.step(a), 'discrete action: outside')
    for a in (-1, n, n + 3):
        untouched(disc, lambda: disc.remove_action(a), 'removed action: outside')
    z = cont.action_space.sample()
    out = z.copy()
    out[rng.integers(len(z))] = rng.choice([-1.0, 1.5, 1e6, np.nan])
    untouched(cont, lambda: cont.step(out), 'continuous action: outside')
    untouched(cont, lambda: cont.step(np.r_[z, z[:1]]), 'continuous action: too long')
    untouched(cont, lambda: cont.step(z[:-1]), 'continuous action: too short')
    for env in (cont, disc):
        env.step(env.action_space.sample())
        ctx.count('runs')
    # ---- controllers
    lists = RuleBasedControl(mg).get_priority_lists(remove_redundant_gensets=True)
    good = lists[rng.integers(len(lists))]
    accept('priority list', lambda: RuleBasedControl(mg, priority_list=good))
    dupl = list(good) + [good[0]]
    for what, pl in (('too long', dupl), ('empty', []), ('foreign', [3])):
        reject(f'priority list: {what}', lambda: RuleBasedControl(mg, priority_list=pl))
    if len(good) > 1:
        reject('priority list: too short', lambda: RuleBasedControl(mg, priority_list=list(good)[:-1]))
    reject('mpc: no battery', lambda: ModelPredictiveControl(Microgrid([m for m in mods if m is not battery])))
    reject('mpc: two loads', lambda: ModelPredictiveControl(Microgrid(list(mods) + [LoadModule(time_series=pos(T))])))
    reject('mpc: not a microgrid', lambda: ModelPredictiveControl(load))
