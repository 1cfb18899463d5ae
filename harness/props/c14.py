"""C14 reproducibility and side-effect-free queries."""
import copy

import numpy as np

from .. import gen
from ..drive import Session, make_control, choose_style, queries

RULE = ('One case is one random microgrid run in lockstep as a reference, a twin interleaved with queries, and deep copies taken '
        'mid-episode, all under the same random state; a situation is (queries made, copy age, done, forecaster noise).')
CASES = dict(quick=320, thorough=5000)
MIN = dict(lockstep_steps=8000, query_bursts=2000, copies=700, noisy=60, resets=300)
ASSUMPTIONS = ['random forecasters and trajectories draw from the global numpy generator, which is put in the same state before each '
               'call on either object; queries that draw random numbers themselves (sampling, forecast() of a noisy module) are excluded']


def same(ctx, a, b, key, what):
    if isinstance(a, dict):
        ctx.check(isinstance(b, dict) and list(a) == list(b), key, lambda: f'{what}: keys {list(a)} vs {list(b)}')
        for k in a:
            same(ctx, a[k], b[k], key, f'{what}[{k}]')
    elif isinstance(a, (list, tuple)):
        ctx.check(len(a) == len(b), key, lambda: f'{what}: length {len(a)} vs {len(b)}')
        for i, (x, y) in enumerate(zip(a, b)):
            same(ctx, x, y, key, f'{what}[{i}]')
    else:
        x, y = np.asarray(a), np.asarray(b)
        ctx.check(x.shape == y.shape and ((x == y) | ((x != x) & (y != y))).all(), key, lambda: f'{what}: {a} vs {b}')


def run_case(ctx, rng, index):
    spec = gen.spec(rng, traj=bool(index % 3 == 0), shaper=bool(index % 4 == 0))
    ctx.describe(spec)
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    ref = Session(ctx, rng, spec)
    np.random.seed(seed)
    twin = Session(ctx, rng, spec)
    noisy = any(m.get('fc') and isinstance(m['fc']['f'], float) and m['fc']['f'] > 0 for m in spec['modules'])
    ctx.count('noisy', int(noisy))
    lanes = [('twin', twin.mg, 0)]
    style = choose_style(ref)

    def call(f):
        state = np.random.get_state()
        out = f(ref.mg)
        after = np.random.get_state()
        for name, mg, _ in lanes:
            np.random.set_state(state)
            yield name, out, f(mg), mg
        np.random.set_state(after)

    for k in range(80 if ctx.thorough else 40):
        if rng.integers(3) == 0:
            twin.mg = lanes[0][1]
            state = np.random.get_state()
            queries(twin)
            after = np.random.get_state()
            ctx.check((state[1] == after[1]).all() and state[2] == after[2], 'query-random', 'a query consumed global random numbers')
            ctx.count('query_bursts')
        if rng.integers(10) == 0 and len(lanes) < 4:
            src = lanes[int(rng.integers(len(lanes)))][1] if rng.integers(2) else ref.mg
            state = np.random.get_state()
            lanes.append((f'copy at {k}', copy.deepcopy(src), k))
            np.random.set_state(state)
            ctx.count('copies')
        elif rng.integers(12) == 0 and len(lanes) > 2:
            lanes.pop(int(rng.integers(1, len(lanes))))
        if not ref.can_step() or rng.integers(20) == 0:
            ctx.event('reset')
            for name, a, b, mg in call(lambda mg: mg.reset()):
                same(ctx, a, b, 'reset', f'reset of {name}')
            ctx.count('resets')
            continue
        if rng.integers(4) == 0:
            style = choose_style(ref)
        control, norm = make_control(ref, ref.observe(), style)
        ctx.event('step', ref.t, norm, {k: str(v) for k, v in control.items()})
        for name, a, b, mg in call(lambda mg: mg.run(copy.deepcopy(control), normalized=norm)):
            for what, x, y in zip(('obs', 'reward', 'done', 'info'), a, b):
                same(ctx, x, y, f'step-{what}', f'{what} of {name} at operation {k}')
            ctx.count('lockstep_steps')
            ctx.seen('lane', name, style, noisy, bool(a[2]), k)
        if rng.integers(8) == 0:
            base = ref.mg.get_log()
            for name, mg, _ in lanes:
                log = mg.get_log()
                ctx.check(base.equals(log[base.columns]) and base.shape == log.shape, 'log', lambda: f'log of {name} differs')
