"""C12 serialization."""
import copy
import os
import shutil
import tempfile

import numpy as np

from pymgrid import Microgrid
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv

from .. import gen
from ..drive import Session, drive, make_control, choose_style
from .c13 import snap
from .c14 import same

RULE = ('One case drives a microgrid or environment through a random history; at random points it is dumped (to a string, a file, '
        'twice to the same file; single modules too), loaded, compared, and both run on in lockstep; a situation is (form, module '
        'kinds, mid-episode, window, trajectory, shaper, forecaster).')
CASES = dict(quick=320, thorough=4000)
MIN = dict(loads=700, file_loads=120, module_loads=600, lockstep_steps=4000, env_loads=60, lockstep_resets=200)
ASSUMPTIONS = ['each microgrid is dumped to a file in a directory of its own, next to which it keeps its data files',
               'modules hold no user-defined callables (these cannot be dumped)', 'environments use flat spaces and all observation keys']


def earlier(mg, rng):
    """The same modules with another history and other series."""
    old = copy.deepcopy(mg)
    for m in old.modules.to_list() if hasattr(old, 'modules') else [old]:
        if hasattr(m, 'time_series') and rng.integers(2):
            m.time_series = m.time_series * 2 if 'Grid' not in type(m).__name__ else m.time_series[::-1].copy()
    state = np.random.get_state()
    if rng.integers(2):
        old.reset()
    np.random.set_state(state)
    return old


def dump_load(mg, form, rng):
    if form == 'string':
        return type(mg).load(mg.dump())
    d, cwd = tempfile.mkdtemp(prefix='pymgrid-verif-'), os.getcwd()
    try:
        path = os.path.join(d, 'mg.yaml')
        if form == 'here':      # by a relative path
            os.chdir(d)
            path = 'mg.yaml'
        elif form == 'moved':   # the directory is renamed
            os.mkdir(os.path.join(d, 'old'))
            path = os.path.join(d, 'old', 'mg.yaml')
        elif form == 'twice':   # over an earlier dump
            with open(path, 'w') as f:
                earlier(mg, rng).dump(f)
        with open(path, 'w') as f:
            mg.dump(f)
        if form == 'moved':
            os.rename(os.path.join(d, 'old'), os.path.join(d, 'new'))
            path = os.path.join(d, 'new', 'mg.yaml')
        with open(path) as f:
            return type(mg).load(f)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def near(ctx, a, b, key, what):
    """Equal; csv files are trusted to the last bits only."""
    if isinstance(a, dict):
        ctx.check(isinstance(b, dict) and set(a) == set(b), key, lambda: f'{what}: keys {list(a)} vs {list(b)}')
        for k in a:
            near(ctx, a[k], b[k], key, f'{what}[{k}]')
    elif isinstance(a, (list, tuple)):
        ctx.check(len(a) == len(b), key, lambda: f'{what}: length {len(a)} vs {len(b)}')
        for i, (x, y) in enumerate(zip(a, b)):
            near(ctx, x, y, key, f'{what}[{i}]')
    elif isinstance(a, str) or a is None:
        ctx.check(a == b, key, lambda: f'{what}: {a!r} vs {b!r}')
    else:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ctx.check(x.shape == y.shape and (np.isclose(x, y, rtol=1e-11, atol=1e-13) | (np.isnan(x) & np.isnan(y))).all(), key,
                  lambda: f'{what}: {a} vs {b}')


def params(mg):
    return [[m.name, {p: getattr(m, p) for p in ('min_capacity', 'max_capacity', 'max_charge', 'max_discharge', 'efficiency',
                      'battery_cost_cycle', 'running_min_production', 'running_max_production', 'genset_cost', 'co2_per_unit',
                      'cost_per_unit_co2', 'start_up_time', 'wind_down_time', 'allow_abortion', 'max_import', 'max_export',
                      'loss_load_cost', 'overgeneration_cost', 'raise_errors', 'forecast_horizon', 'forecaster_increase_uncertainty',
                      'forecaster_relative_noise', 'initial_step', 'final_step') if hasattr(m, p)}] for m in mg.modules.to_list()]


def compare(ctx, mg, new, form):
    ctx.check(type(new) is type(mg), 'type', lambda: f'{type(new)}')
    exact = form == 'string'
    near(ctx, [list(map(str, p[0])) for p in params(mg)], [list(map(str, p[0])) for p in params(new)], 'names', form)
    near(ctx, [p[1] for p in params(mg)], [p[1] for p in params(new)], 'parameters', form)
    near(ctx, *([getattr(m, 'time_series', None) for m in x.modules.to_list()] for x in (mg, new)), 'series', form)
    near(ctx, snap(mg)[:1] + snap(mg)[2:], snap(new)[:1] + snap(new)[2:], 'state', form) if not noisy(mg) else \
        near(ctx, [[m.current_step, m.initial_step] for m in mg.modules.to_list()], [[m.current_step, m.initial_step] for m in new.modules.to_list()], 'state', form)
    a, b = mg.get_log(), new.get_log()
    ctx.check(a.shape == b.shape and set(a.columns) == set(b.columns) and list(a.index) == list(b.index), 'log',
              lambda: f'log {a.shape} {list(a.index)} vs {b.shape} {list(b.index)}; {set(a.columns) ^ set(b.columns)}')
    for c in a.columns:
        near(ctx, a[c].to_numpy(dtype=float), b[c].to_numpy(dtype=float), 'log', f'log column {c}')
    ctx.check(mg.trajectory_func == new.trajectory_func, 'trajectory', lambda: f'{mg.trajectory_func} vs {new.trajectory_func}')
    ctx.check(type(mg.reward_shaping_func) is type(new.reward_shaping_func), 'shaper')
    ctx.check((mg.initial_step, mg.final_step) == (new.initial_step, new.final_step), 'window',
              lambda: f'{(mg.initial_step, mg.final_step)} vs {(new.initial_step, new.final_step)}')
    if exact and not noisy(mg) and not a.isna().any().any():      # nan != nan: fields that are no longer logged
        ctx.check(mg == new, 'equal', 'the loaded microgrid is not equal to the original')


def noisy(mg):
    return any('Gaussian' in type(getattr(m, 'forecaster', None)).__name__ for m in mg.modules.to_list())


def relative(mg):
    """Noise relative to the mean of a window that may since have been moved."""
    return any(getattr(m, 'forecaster_relative_noise', False) for m in mg.modules.to_list()) and noisy(mg)


def lockstep(ctx, rng, spec, mg, new, n, is_env):
    a, b = copy.deepcopy(mg), new
    S = Session(ctx, rng, spec, mg=a)
    for r in S.ref.ts:                          # the series may have been replaced
        r.vals = np.array(S.module(r.id).time_series, dtype=float)
    if noisy(mg):                               # the forecast at the time of loading is drawn again
        state = np.random.get_state()
        for m in (a, b):
            np.random.set_state(state)
            m.reset()
    for _ in range(n):
        state = np.random.get_state()
        if not S.can_step() or rng.integers(12) == 0:
            ra = a.reset()
            np.random.set_state(state)
            rb = b.reset()
            if not relative(mg):
                near(ctx, ra, rb, 'lockstep-reset', 'reset')
            ctx.count('lockstep_resets')
            continue
        if is_env:
            act = a.action_space.sample()
            np.random.set_state(state)
            oa = a.step(act)
            np.random.set_state(state)
            ob = b.step(act)
        else:
            control, norm = make_control(S, S.observe(), choose_style(S))
            state = np.random.get_state()
            oa = a.run(control, normalized=norm)
            np.random.set_state(state)
            ob = b.run(control, normalized=norm)
        if noisy(mg):
            near(ctx, [oa[1], oa[2], oa[3]], [ob[1], ob[2], ob[3]], 'lockstep', 'reward, done, info')
        else:
            near(ctx, list(oa), list(ob), 'lockstep', 'outputs')
        ctx.count('lockstep_steps')
    la, lb = a.get_log(), b.get_log()
    ctx.check(la.shape == lb.shape and list(la.index) == list(lb.index), 'lockstep-log', lambda: f'{la.shape} vs {lb.shape}')
    if not noisy(mg):
        for c in la.columns:
            near(ctx, la[c].to_numpy(dtype=float), lb[c].to_numpy(dtype=float), 'lockstep-log', f'log column {c}')


def modules(ctx, rng, S):
    for r in S.ref.all:
        m = S.module(r.id)
        before = repr(snap(m))
        new = dump_load(m, str(rng.choice(['string', 'file', 'twice'])), rng)
        ctx.check(repr(snap(m)) == before, 'module-dump-side-effect', lambda: f'{r.id}')
        ctx.check(type(new) is type(m) and tuple(new.name) == tuple(m.name), 'module-name', lambda: f'{new.name} vs {m.name}')
        if not (r.fc and isinstance(r.fc['f'], float)):
            near(ctx, snap(m)[:1] + snap(m)[2:4] + snap(m)[5:], snap(new)[:1] + snap(new)[2:4] + snap(new)[5:], 'module-state', f'{r.id}')
        near(ctx, {k: v for k, v in snap(m)[1].items()}, {k: v for k, v in snap(new)[1].items()}, 'module-log', f'{r.id}')
        ctx.count('module_loads')


class Saves:
    def __init__(self, p):
        self.p = p

    def at(self, S):
        ctx, rng = S.ctx, S.rng
        form = str(rng.choice(['string', 'string', 'string', 'file', 'twice', 'twice', 'here', 'moved']))
        before = repr(snap(S.mg))
        state = np.random.get_state()
        new = dump_load(S.mg, form, rng)
        np.random.set_state(state)
        ctx.event('dump', form)
        ctx.check(repr(snap(S.mg)) == before, 'dump-side-effect', 'dumping changed the microgrid')
        compare(ctx, S.mg, new, form)
        ctx.count('loads')
        ctx.count('file_loads', int(form != 'string'))
        ctx.seen('save', form, tuple(sorted(r.kind for r in S.ref.all)), len(S.rows) > 0, S.spec['window'] is not None,
                 (S.spec['traj'] or [None])[0], S.spec['shaper'], tuple(bool(r.fc) for r in S.ref.ts))
        lockstep(ctx, rng, S.spec, S.mg, new, int(rng.integers(1, 12)), False)
        if rng.integers(3) == 0:
            modules(ctx, rng, S)

    def start(self, S):
        self.at(S)

    def step(self, S, rec):
        if S.rng.uniform() < self.p:
            self.at(S)

    def reset(self, S, rec):
        if S.rng.uniform() < .3:
            self.at(S)

    def other(self, S, op, pre, post):
        if op in ('window', 'forecaster', 'soc') and S.rng.integers(2):
            self.at(S)


def env_case(ctx, rng, spec):
    discrete = bool(rng.integers(2))
    if discrete:
        n = 0
        keep = []
        for m in spec['modules']:
            n += (m['kind'] in ('battery', 'grid')) + 2 * (m['kind'] == 'genset')
            if m['kind'] in ('load', 'renewable', 'balancing') or n <= 4:
                keep.append(m)
        spec['modules'] = keep
    if not any(m['kind'] in ('battery', 'grid', 'genset') for m in spec['modules']):
        return
    env = gen.build(spec, cls=DiscreteMicrogridEnv if discrete else ContinuousMicrogridEnv)
    env.reset()
    S = Session(ctx, rng, spec, mg=env)
    for _ in range(25):
        if not S.can_step():
            env.reset()
        env.step(env.action_space.sample())
        if rng.integers(6) == 0:
            before = repr(snap(env))
            form = str(rng.choice(['string', 'file', 'twice', 'here', 'moved']))
            state = np.random.get_state()
            new = dump_load(env, form, rng)
            np.random.set_state(state)
            ctx.check(repr(snap(env)) == before, 'dump-side-effect', 'dumping changed the environment')
            compare(ctx, env, new, form)
            lockstep(ctx, rng, spec, env, new, 6, True)
            ctx.count('env_loads')
            ctx.seen('env', discrete, form)


def run_case(ctx, rng, index):
    spec = gen.spec(rng, long=120, crowd=True, T=int(rng.choice([5, 10, 26])), custom=False, callable_cost=False, user_fc=False, traj=bool(index % 3 == 0 or index % 12 == 5),
                    shaper=bool(index % 4 == 0), raise_errors=False if index % 6 == 5 else None)
    ctx.describe(spec)
    if index % 6 == 5:
        return env_case(ctx, rng, spec)
    drive(ctx, rng, spec, [Saves(.08)], n_ops=60 if ctx.thorough else 25, ops=dict(yaml=.05, file=.03, soc=.04, forecaster=.05, series=.02), swap_is_ours=True)
