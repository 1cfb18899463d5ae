"""C15 discrete environment."""
import copy

import numpy as np

from pymgrid.envs import DiscreteMicrogridEnv

from .. import gen
from ..deploy import deploy, expected_lists
from ..drive import Session, energies

RULE = ('One case builds a discrete environment, compares its actions with all deployment orders, and runs random actions from '
        'random reachable states against the reference deployment; a situation is (position in order, kind, on/off, covering or '
        'absorbing, limited by minimum, maximum or need).')
CASES = dict(quick=200, thorough=2500)
MIN = dict(steps=5000, compared=4000, bad_actions=150, removed=50)
ASSUMPTIONS = ['remaining demand of at most 1e-4 units counts as covered; a step that meets a remainder between 0.9e-4 and 1.1e-4 units '
               'is not compared', 'modules do not raise errors on infeasible requests']


def small(rng, spec, most=5):
    n, keep = 0, []
    for m in spec['modules']:
        n += (m['kind'] in ('battery', 'grid')) + 2 * (m['kind'] == 'genset')
        if m['kind'] in ('load', 'renewable', 'balancing') or n <= most:
            keep.append(m)
    spec['modules'] = keep
    return any(m['kind'] in ('battery', 'grid', 'genset') for m in keep)


def compare_step(ctx, ref, pre, t, order, info, where):
    def note(r, act, remaining, e, lo, hi):
        ctx.seen('deploy', r.kind, act, remaining > 1e-4, remaining < -1e-4, e == lo, e == hi, e == remaining)
    control, at_tolerance = deploy(ref, pre, t, order, note)
    if at_tolerance:
        ctx.count('near_tolerance')
        return False
    exp = ref.expect(pre, t, {n: [np.array(c) if isinstance(c, list) else c for c in l] for n, l in control.items()}, False)
    for r in ref.all:
        p, a = energies(info, r)
        ctx.close(p, exp['modules'][r.id]['provided'], 'deployed', f'{where}: {r.id} provides, order {order}', scale=ref.escale)
        ctx.close(a, exp['modules'][r.id]['absorbed'], 'deployed', f'{where}: {r.id} absorbs, order {order}', scale=ref.escale)
    ctx.count('compared')
    return True


def run_case(ctx, rng, index):
    spec = gen.spec(rng, T=int(rng.choice([5, 10, 26])), scale=float(rng.choice([.01, .5, 50.0, 1e3, 1e5])), raise_errors=False, forecasts=bool(index % 2),
                    need=('load', ['battery', 'grid', 'genset'][index % 3]))
    rng.shuffle(spec['modules'])
    if not small(rng, spec):
        return
    ctx.describe(spec)
    redundant = bool(rng.integers(2))
    S = Session(ctx, rng, spec, mg=gen.build(spec, cls=DiscreteMicrogridEnv, remove_redundant_gensets=redundant))
    env = S.mg
    got = [tuple((tuple(el.module), el.action) for el in pl) for pl in env.actions_list]
    want = expected_lists(S.ref, redundant)
    ctx.check(len(got) == len(set(got)), 'duplicate-actions', lambda: f'{len(got)} actions, {len(set(got))} distinct')
    ctx.check(set(got) == want, 'actions', lambda: f'missing {list(want - set(got))[:3]}, unexpected {list(set(got) - want)[:3]}')
    ctx.check(env.action_space.n == len(got), 'n-actions', lambda: f'{env.action_space} for {len(got)} actions')
    for bad in (len(got), -1):
        c = copy.deepcopy(env)
        ctx.raises((ValueError, AssertionError), lambda: c.step(bad), 'bad-action', f'action {bad} of {len(got)}')
        ctx.count('bad_actions')
    for k in range(80 if ctx.thorough else 40):
        if not S.can_step() or rng.integers(15) == 0:
            env.reset()
        if rng.integers(12) == 0:
            for r in S.ref.all:
                if r.kind == 'battery':
                    S.module(r.id).current_charge = float(rng.choice([r.m['min'], r.m['max'], rng.uniform(r.m['min'], r.m['max'])]))
        if rng.integers(30) == 0 and env.action_space.n > 1:
            j = int(rng.integers(env.action_space.n))
            env.remove_action(j)
            del got[j]
            ctx.check(env.action_space.n == len(got) and
                      got == [tuple((tuple(el.module), el.action) for el in pl) for pl in env.actions_list], 'remove-action')
            ctx.count('removed')
        a = int(rng.integers(env.action_space.n))
        pre, t = S.observe(), S.t
        ctx.event('step', t, got[a])
        obs, reward, done, info = env.step(a)
        ctx.count('steps')
        compare_step(ctx, S.ref, pre.state, t, got[a], info, f'step {t}')
