"""C25 benchmark scenarios."""
import copy

import numpy as np

from pymgrid import Microgrid, MicrogridGenerator
from pymgrid.algos import RuleBasedControl
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv

from .. import scenarios
from ..deploy import deploy
from ..drive import Session, do_step
from ..monitors import Battery, Clock, Dispatch, Energy, ENERGY_NAMES, Genset, Grid, Obs, Reward
from ..offline import check_log

RULE = ('Each of the 25 scenarios, loaded alone (as microgrid and environments) and as a set, is compared with an independent reading of its files and the '
        'committed record of the benchmark; then a whole year under random actions and under rule-based control is checked offline '
        'from its log, and random windows step by step. A situation is (scenario, kind of run, start of the window).')
CASES = dict(quick=75, thorough=250)
MIN = dict(sets=1, loaded=150, full_years=25, rbc_runs=25, log_rows=200000, steps=2000, rejected=200, envs=50, outages=1000, rbc_steps=25000)
ASSUMPTIONS = ['scenario data is read from the installed package directory']
CHUNK = 1
_specs = {}


def spec_of(n):
    if n not in _specs:
        _specs[n] = scenarios.read(n)
    return _specs[n]


def eq(ctx, a, b, what):
    if isinstance(a, (list, tuple)):
        ctx.check(isinstance(b, (list, tuple)) and len(a) == len(b), 'system', lambda: f'{what}: {a} vs {b}')
        for x, y in zip(a, b):
            eq(ctx, x, y, what)
    elif isinstance(a, dict):
        ctx.check(set(a) == set(b), 'system', lambda: f'{what}: {set(a) ^ set(b)}')
        for k in a:
            eq(ctx, a[k], b[k], f'{what} {k}')
    elif isinstance(a, (int, float)) and not isinstance(a, bool):
        ctx.check(isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * max(1, abs(a)), 'system', lambda: f'{what}: {a} vs {b}')
    else:
        ctx.check(a == b, 'system', lambda: f'{what}: {a} vs {b}')


def system(ctx, n, mg, spec):
    """The loaded objects against the files and against the committed record."""
    eq(ctx, scenarios.recorded()[n], scenarios.record(spec), f'scenario {n} files')
    got = []
    for r in Session(ctx, np.random.default_rng(0), spec, mg=mg).ref.given:
        mod = mg.modules[r.name][r.num]
        d = dict(kind=r.kind, name=r.name)
        if r.is_ts:
            ts = np.array(mod.time_series, dtype=float)
            ts = np.abs(ts[:, 0]) if r.kind != 'grid' else ts
            d.update(ts=scenarios.digest(ts), fc=dict(f='oracle', h=mod.forecast_horizon, iu=False, rel=False))
        if r.kind == 'grid':
            d.update(imp=float(mod.max_import), exp=float(mod.max_export), co2cost=mod.cost_per_unit_co2)
        elif r.kind == 'battery':
            d.update(min=mod.min_capacity, max=mod.max_capacity, charge=mod.max_charge, discharge=mod.max_discharge, eff=mod.efficiency,
                     cost=mod.battery_cost_cycle, init=mod.current_charge, tm=None)
        elif r.kind == 'genset':
            d.update(min=mod.running_min_production, max=mod.running_max_production, cost=mod.genset_cost, co2=mod.co2_per_unit,
                     co2cost=mod.cost_per_unit_co2, up=mod.start_up_time, down=mod.wind_down_time, abort=mod.allow_abortion, init_on=bool(mod.current_status))
        elif r.kind == 'balancing':
            llc, ogc = mod.loss_load_cost, mod.overgeneration_cost
        got.append(d)
    eq(ctx, scenarios.recorded()[n], dict(modules=got, llc=llc, ogc=ogc, window=[mg.initial_step, mg.final_step]), f'scenario {n} loaded')
    kinds = [m['kind'] for m in spec['modules']]
    ctx.check({'load', 'renewable', 'battery'} <= set(kinds) and ('grid' in kinds or 'genset' in kinds), 'components', lambda: f'{kinds}')
    ctx.check(all(len(m['ts']) == 8760 for m in spec['modules'] if 'ts' in m), 'year')
    ctx.count('loaded')


def fresh_checks(ctx, rng, n, spec):
    mg = Microgrid.from_scenario(n)
    system(ctx, n, mg, spec)
    again = Microgrid.from_scenario(n if rng.integers(2) else np.int64(n))
    ctx.check(mg == again, 'repeatable', 'loading the scenario twice gives different microgrids')
    mg.run(mg.sample_action())
    other = Microgrid.from_scenario(n)
    ctx.check(other == again, 'independent', 'running one copy changed a later one')
    for cls in (ContinuousMicrogridEnv, DiscreteMicrogridEnv):
        flat = bool(rng.integers(2))
        form = int(rng.integers(4))
        if form == 0:
            env, flat = cls.from_scenario(n), True
        elif form == 1:
            env = cls.from_scenario(microgrid_number=n, flat_spaces=flat)
        elif form == 2:
            env, flat = cls(n), True
        else:
            env = cls(n, flat_spaces=flat)
        ctx.check(type(env) is cls and env.flat_spaces == flat, 'env-class', lambda: f'{type(env)} flat: {env.flat_spaces}, asked for {flat}')
        system(ctx, n, env, spec)
        obs = env.reset()
        ctx.check(env.observation_space.contains(obs), 'env-obs')
        for _ in range(5):
            obs, reward, done, info = env.step(env.action_space.sample())
            ctx.check(env.observation_space.contains(obs) and not done, 'env-step')
        S = Session(ctx, rng, spec, mg=env)
        check_log(ctx, S.ref, env.get_log().drop(columns='action', level=0, errors='ignore'), spec)
        ctx.count('envs')
    for bad in (25, -1, 100, 3.5, 'one', None):
        ctx.raises((TypeError, ValueError), lambda: Microgrid.from_scenario(bad), 'number', f'scenario {bad!r}')
        ctx.count('rejected')


def whole_set(ctx, rng):
    """The benchmark loaded all at once."""
    gen = MicrogridGenerator.load('pymgrid25')
    ctx.check(len(gen.microgrids) == 25, 'set', lambda: f'{len(gen.microgrids)} microgrids')
    for n, mg in enumerate(gen.microgrids):
        system(ctx, n, mg, spec_of(n))
    n = int(rng.integers(25))
    mg, other = gen.microgrids[n], MicrogridGenerator.load('pymgrid25').microgrids[n]
    ctx.check(mg == other == Microgrid.from_scenario(n), 'set', 'loading the set twice, or its member alone, differs')
    before = gen.microgrids[n - 1].state_dict()
    mg.run(mg.sample_action())
    ctx.check(str(before) == str(gen.microgrids[n - 1].state_dict()) and other.current_step == 0, 'independent', 'members of the set share state')
    ctx.count('sets')


def full_year(ctx, rng, n, spec):
    mg = Microgrid.from_scenario(n)
    S = Session(ctx, rng, spec, mg=mg)
    lo, hi = spec['window']
    style = 'normal'
    obs = mg.reset()
    batch = rng.uniform(size=(hi - lo, 4))
    hold = rng.integers(0, 5, hi - lo)
    k, done, tot = 0, False, 0.0
    while not done:
        u = batch[k]
        if hold[k] == 0:
            u = np.round(u)
        control = {}
        for r in S.ref.controllable:
            e = u[0] if r.kind == 'battery' else u[1] if r.kind == 'grid' else u[2]
            control[r.name] = [np.array([np.round(u[3]), e]) if r.kind == 'genset' else float(e)]
        _, reward, done, info = mg.run(control)
        tot += reward
        k += 1
        ctx.check(k <= hi - lo, 'year-length', 'the episode does not end')
    ctx.check(k == hi - lo, 'year-length', lambda: f'{k} steps of {hi - lo}')
    log = mg.get_log()
    ctx.check(len(log) == k, 'year-log', lambda: f'{len(log)} rows for {k} steps')
    check_log(ctx, S.ref, log, spec)
    ctx.close(float(log[('balance', 0, 'reward')].sum()), tot, 'year-reward', 'sum of rewards', scale=abs(tot) + S.ref.escale)
    ctx.count('full_years')
    ctx.seen('year', n)


def rbc(ctx, rng, n, spec, steps):
    mg = Microgrid.from_scenario(n)
    if steps < 8000:
        a = int(rng.integers(0, 8759 - steps))
        mg.initial_step, mg.final_step = a, a + steps
    c = RuleBasedControl(mg)
    log = c.run()
    S = Session(ctx, rng, spec, mg=c.microgrid)
    check_log(ctx, S.ref, log, spec, forecasts=False)
    lo, hi = c.microgrid.initial_step, c.microgrid.final_step
    ctx.check(list(log.index) == list(range(lo, hi)), 'rbc-length', lambda: f'{len(log)}')
    order = [(tuple(el.module), el.action) for el in c.priority_list]
    ref = S.ref
    state = {r.id: {} for r in ref.all}
    cols = {cc: log[cc].to_numpy(dtype=float) for cc in log.columns}
    gs = {r.id: None for r in ref.all if r.kind == 'genset'}
    for k in range(len(log)):
        for r in ref.all:
            if r.kind == 'battery':
                state[r.id] = dict(current_charge=cols[(r.name, r.num, 'current_charge')][k], soc=0)
            elif r.kind == 'genset':
                state[r.id] = gs[r.id] or dict(current_status=1, goal_status=1, steps_until_up=0, steps_until_down=0)
        control, at_tolerance = deploy(ref, state, lo + k, order)
        for r in ref.all:
            if r.kind == 'genset':
                gs[r.id] = r.genset_next(state[r.id], int(control[r.name][r.num][0]))
        if at_tolerance:
            ctx.count('near_tolerance')
            continue
        for r in ref.controllable:
            pn, an = ENERGY_NAMES[r.kind]
            e = cols[(r.name, r.num, pn)][k] - (cols[(r.name, r.num, an)][k] if an else 0.0)
            want = control[r.name][r.num]
            if r.kind == 'genset':
                on = gs[r.id]['current_status']
                want = min(max(want[1], on * r.m['min']), on * r.m['max'])
            ctx.close(e, want, 'rbc-deployed', f'scenario {n} t={lo + k} {r.id} order {order}', scale=ref.escale)
        ctx.count('rbc_steps')
    ctx.count('rbc_runs')
    ctx.seen('rbc', n, lo)


def windows(ctx, rng, n, spec):
    mg = Microgrid.from_scenario(n)
    a = int(rng.choice([0, rng.integers(0, 8700), rng.integers(0, 8700), 8700]))
    b = min(8759, a + int(rng.integers(2, 60)))
    S = Session(ctx, rng, spec, mg=mg)
    mg.initial_step, mg.final_step = a, b
    mg.reset()
    S.window = S.episode = [a, b]
    mons = [Energy(), Battery(), Grid(), Reward(), Dispatch(), Clock(), Obs()]
    g = Genset()
    g.streak, g.advert = {r.id: 0 for r in S.ref.all if r.kind == 'genset'}, {}
    mons.append(g)
    for m in mons:
        if isinstance(m, Clock):
            m.since_reset, m.whole = 0, True
    for _ in range(b - a):
        S.style = str(rng.choice(['rand', 'extreme', 'strict', 'balance', 'full_up', 'full_down', 'over', 'unnorm']))
        for m in mons:
            if hasattr(m, 'before'):
                m.before(S)
        rec = do_step(S, style=S.style)
        for m in mons:
            m.step(S, rec)
    ctx.seen('window', n, a)


def run_case(ctx, rng, index):
    n = index % 25
    spec = spec_of(n)
    ctx.describe(dict(scenario=n, run=index // 25 % 3))
    kind = index // 25 % 3
    if kind == 0:
        fresh_checks(ctx, rng, n, spec)
        full_year(ctx, rng, n, spec)
    elif kind == 1:
        rbc(ctx, rng, n, spec, 8759 if ctx.thorough else 1200)
        fresh_checks(ctx, rng, n, spec)
    else:
        for _ in range(8 if ctx.thorough else 4):
            windows(ctx, rng, n, spec)
        if n % 8 == 0:
            whole_set(ctx, rng)
