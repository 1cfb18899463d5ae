"""C26 gym contract."""
import copy

import numpy as np
from gym.spaces import Dict as GymDict
from gym.spaces import Tuple as GymTuple

from pymgrid import Microgrid
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv

from .. import gen
from ..drive import Session, energies, make_control
from .c15 import small

RULE = ('One case builds an environment (continuous or discrete, flat or nested, from modules or from a microgrid in mid-episode, '
        'with or without observation keys) and runs sampled actions for several episodes, next to a plain microgrid given the '
        'same actions; a situation is (class, form, keys, module kinds).')
CASES = dict(quick=320, thorough=5000)
MIN = dict(steps=7000, resets=500, episodes=150, nested=1000, keyed=800, discrete=1500, twin_steps=2500, from_mg=80, runs=80)
ASSUMPTIONS = ['observation keys are used with flat spaces', 'the environment has at least one controllable module']


def contains(space, x):
    return space.contains(x)


def run_case(ctx, rng, index):
    discrete = index % 3 == 2
    spec = gen.spec(rng, crowd=bool(index % 2), T=int(rng.choice([5, 10, 26])), raise_errors=False, noise=bool(index % 2), user_fc=False, traj=bool(index % 5 == 0),
                    scale=float(rng.choice([1.0, 50.0, 1e4])), need=('load', ['battery', 'grid', 'genset'][index % 3]), shaper=bool(index % 7 == 0))
    if discrete and not small(rng, spec, 4):
        return
    ctx.describe(spec)
    cls = DiscreteMicrogridEnv if discrete else ContinuousMicrogridEnv
    flat = bool(rng.integers(3))
    base = gen.build(spec)
    keys = None
    if flat and rng.integers(2):
        avail = list(dict.fromkeys(k for l in base.state_dict().values() for d in l for k in d))
        keys = [str(k) for k in rng.choice(avail, int(rng.integers(1, len(avail) + 1)), replace=False)]
    kw = dict(flat_spaces=flat)
    if keys:
        kw['observation_keys'] = keys if rng.integers(3) or len(keys) > 1 else keys[0]
    how = str(rng.choice(['modules', 'microgrid', 'wrap', 'stepped']))
    S0 = Session(ctx, rng, spec, mg=base)
    if how == 'stepped':
        for _ in range(int(rng.integers(1, 6))):
            if S0.can_step():
                base.run(base.sample_action())
    if how == 'modules':
        env = gen.build(spec, cls=cls, **kw)
    elif how == 'wrap' and flat and not keys:
        env = cls(base)
    else:
        env = cls.from_microgrid(base, **kw)
    ctx.check(type(env) is cls, 'class', lambda: f'{type(env)}')
    if how != 'modules':
        ctx.count('from_mg')
        ctx.check((env.initial_step, env.final_step) == (base.initial_step, base.final_step), 'from-window')
        ctx.check(env.current_step == base.current_step if spec['modules'] else True, 'from-step', lambda: f'{env.current_step} {base.current_step}')
        a, b = base.get_log(), env.get_log()
        ctx.check(a.equals(b[a.columns]) and len(a) == len(b), 'from-log', lambda: f'{a.shape} {b.shape}')
    if keys:
        ctx.raises(NameError, lambda: cls.from_microgrid(base, flat_spaces=True, observation_keys=['no_such_key']), 'bad-key', 'unknown observation key')
    S = Session(ctx, rng, spec, mg=env)
    ref = S.ref
    twin = copy.deepcopy(base) if how != 'modules' else gen.build(spec)
    noisy = any(r.fc and isinstance(r.fc['f'], float) and r.fc['f'] > 0 for r in ref.ts)

    def check_obs(obs, where):
        ctx.check(contains(env.observation_space, obs), 'obs-in-space', lambda: f'{where}: {obs} not in {env.observation_space}')
        norm = {}
        steps = {r.id: S.module(r.id).current_step for r in ref.all}
        state = env.state_dict()
        for r in ref.all:
            d = state[r.name][r.num]
            v = np.array(list(d.values()), dtype=float)
            lo, hi = r.obs_bounds()
            spread = np.where(hi > lo, hi - lo, 1.0)
            norm[r.id] = dict(zip(d, (v - lo) / spread))
        if flat and not keys:
            want = [x for n in sorted(ref.names) for r in ref.by_name[n] for x in norm[r.id].values()]
        elif flat:
            want = [x for r in ref.all for k, x in norm[r.id].items() if k in keys]
        else:
            ctx.check(set(obs) == set(ref.names), 'nested-names', lambda: f'{where}: {list(obs)}')
            for r in ref.all:
                ctx.check(len(obs[r.name]) == len(ref.by_name[r.name]), 'nested-length')
                ctx.arr_close(np.atleast_1d(obs[r.name][r.num]), list(norm[r.id].values()), 'obs-value', f'{where} {r.id}')
            ctx.count('nested')
            return
        ctx.check(isinstance(obs, np.ndarray), 'obs-type', lambda: f'{where}: {type(obs)}')
        got = np.asarray(obs, dtype=float)
        ctx.check(got.shape == (len(want),), 'obs-shape', lambda: f'{where}: {got.shape} expected {len(want)} {keys}')
        if keys:
            # each requested value exactly once
            ctx.arr_close(np.sort(got), np.sort(want), 'obs-keys', f'{where} keys {keys}')
            order = [(r.id, k) for r in ref.all for k in norm[r.id] if k in keys]
            perm = np.array([norm[i][k] for i, k in order])
            check_obs.fit = check_obs.fit & (np.abs(got[:, None] - perm[None, :]) < 1e-9)
            ctx.check(check_obs.fit.any(1).all() and check_obs.fit.any(0).all(), 'obs-position', lambda: f'{where}: positions changed over time, keys {keys}')
            ctx.count('keyed')
        else:
            ctx.arr_close(got, want, 'obs-value', f'{where} flat observation')
    check_obs.fit = True

    ctx.seen(cls.__name__, flat, bool(keys), how, tuple(sorted(r.kind for r in ref.all)), discrete)
    if rng.integers(2) or how != 'stepped':
        st = np.random.get_state()
        check_obs(env.reset(), 'first reset')
        np.random.set_state(st)
        twin.reset()
    started = True
    for k in range(60 if ctx.thorough else 30):
        if not S.can_step() or rng.integers(12) == 0:
            st = np.random.get_state()
            obs = env.reset()
            np.random.set_state(st)
            twin.reset()
            ctx.count('resets')
            check_obs(obs, 'reset')
            m = S.module(ref.ts[0].id)
            ctx.check(env.current_step == m.initial_step and (spec['traj'] or m.initial_step == env.initial_step), 'reset-step')
        act = env.action_space.sample()
        ctx.check(contains(env.action_space, act), 'sample')
        if not discrete and twin is not None and rng.integers(10) == 0:
            # run() remains that of a microgrid
            un = bool(rng.integers(2))
            control = env.sample_action()
            st = np.random.get_state()
            if un:
                control = twin.from_normalized(control, act=True)
            mine, theirs = env.run(control, normalized=not un), None
            np.random.set_state(st)
            theirs = twin.run(control, normalized=not un)
            ctx.close(mine[1], theirs[1], 'run-reward', 'run() of the environment vs of a microgrid', scale=ref.escale * 100)
            for r in ref.all:
                for x, y in zip(energies(mine[3], r), energies(theirs[3], r)):
                    ctx.close(x, y, 'run-energy', f'run(): {r.id} in the environment vs in a microgrid', scale=ref.escale)
            ctx.count('runs')
            if not S.can_step():
                continue
        pre, t = S.observe(), S.t
        end = S.module(ref.ts[0].id).final_step
        ctx.event('step', t, str(act))
        st = np.random.get_state()
        obs, reward, done, info = env.step(act)
        check_obs(obs, f'step {t}')
        ctx.check(bool(done) == (t >= end - 1), 'done', lambda: f'done={done} at {t}, final step {end}')
        ctx.count('episodes', int(bool(done)))
        ctx.check(isinstance(done, (bool, np.bool_)) and np.isscalar(reward) and isinstance(info, dict), 'types', lambda: f'{type(done)} {reward!r} {type(info)}')
        log = env.get_log()
        ctx.check(log[('balance', 0, 'shaped_reward')].iloc[-1] == reward, 'reward-log')
        want = sum(r.cost(*energies(info, r), pre.state[r.id], t) for r in ref.all)
        ctx.close(log[('balance', 0, 'reward')].iloc[-1], want, 'reward-costs', f'step {t}: reward and the costs of what was exchanged', scale=ref.escale * 100)
        np.random.set_state(st)
        if discrete:
            ctx.count('discrete')
            ctx.check(int(log[('action', 0, '')].iloc[-1]) == int(act), 'action-log', lambda: f'{log[("action", 0, "")].iloc[-1]} for {act}')
            # the flows the action led to, requested from a plain microgrid
            control = {n: [] for n in ref.control_names()}
            for r in ref.controllable:
                p, a = energies(info, r)
                control[r.name].append(np.array([env.state_dict()[r.name][r.num]['goal_status'], p]) if r.kind == 'genset' else float(p - a))
            norm = False
        else:
            if flat:
                pos, control = 0, {}
                for n in sorted(ref.control_names()):
                    control[n] = []
                    for r in ref.by_name[n]:
                        w = 2 if r.kind == 'genset' else 1
                        control[n].append(np.array(act[pos:pos + w]) if w == 2 else float(act[pos]))
                        pos += w
                ctx.check(pos == len(act), 'action-size', lambda: f'{len(act)} expected {pos}')
            else:
                control = {n: list(v) for n, v in act.items()}
            norm = True
        if discrete and any(r.kind == 'genset' for r in ref.controllable):
            twin = None if twin is None else _follow(env)
        else:
            _, r2, d2, i2 = twin.run(control, normalized=norm)
            ctx.close(reward, r2, 'twin-reward', f'step {t}: environment vs microgrid', scale=ref.escale * 100)
            ctx.check(bool(done) == bool(d2), 'twin-done')
            for r in ref.all:
                for x, y in zip(energies(info, r), energies(i2, r)):
                    ctx.close(x, y, 'twin-energy', f'step {t}: {r.id} in the environment vs in a microgrid', scale=ref.escale)
            ctx.count('twin_steps')
        ctx.count('steps')


def _follow(env):
    """Goals of gensets in transition cannot be read back from a discrete step: copy the environment instead."""
    return copy.deepcopy(env)
