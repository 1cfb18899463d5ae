"""C23 trajectories."""
import copy

import numpy as np

from pymgrid import Microgrid
from pymgrid.microgrid.trajectory import DeterministicTrajectory, FixedLengthStochasticTrajectory, StochasticTrajectory

from .. import gen
from ..drive import Session, do_step, choose_style

RULE = ('One case runs episodes of a random microgrid under a user-defined, recording trajectory or a provided one, in random windows, '
        'with partial episodes, copies and reloads in between; a situation is (trajectory, first and last step of the episode in '
        'the window). Provided trajectories are also called directly, and invalid ones passed to constructors.')
CASES = dict(quick=240, thorough=4000)
MIN = dict(episodes=600, resets=1200, direct=20000, rejected=700, full_window=40, steps=5000)
ASSUMPTIONS = ['a random trajectory over a configured window needs a window of three steps']


class User:
    """Records its calls; returns chosen windows."""

    def __init__(self, rng):
        self.rng, self.calls, self.out = rng, [], None

    def __call__(self, initial_step, final_step):
        self.calls.append((initial_step, final_step))
        a = int(self.rng.integers(initial_step, final_step))
        b = int(self.rng.integers(a + 1, final_step + 1))
        if self.rng.integers(5) == 0:
            a, b = initial_step, final_step
        if self.rng.integers(5) == 0:
            b = a + 1
        self.out = a, b
        return a, b

    def __deepcopy__(self, memo):
        return self


def direct(ctx, rng):
    for _ in range(20):
        lo = int(rng.integers(0, 50))
        hi = lo + int(rng.choice([3, 4, 5, 10, 100]))
        n = int(rng.integers(1, hi - lo + 1))
        for traj, kind in ((StochasticTrajectory(), 'sto'), (FixedLengthStochasticTrajectory(n), 'fix')):
            firsts = set()
            for _ in range(20):
                a, b = traj(lo, hi)
                ctx.check(lo <= a < b <= hi, f'{kind}-window', lambda: f'{traj} gave {(a, b)} for {(lo, hi)}')
                ctx.check(kind != 'fix' or b - a == n, 'fix-length', lambda: f'{traj} gave {(a, b)} for {(lo, hi)}')
                ctx.check(int(a) == a and int(b) == b, 'integer')
                firsts.add(int(a))
                ctx.count('direct')
            if n == hi - lo and kind == 'fix':
                ctx.check(firsts == {lo}, 'fix-full')
                ctx.count('full_window')
        a, b = sorted(rng.integers(0, 1000, 2).tolist())
        ctx.check(tuple(DeterministicTrajectory(a, b + 1)(lo, hi)) == (a, b + 1), 'det')
        ctx.raises(ValueError, lambda: FixedLengthStochasticTrajectory(hi - lo + 1)(lo, hi), 'fix-too-long', f'{(lo, hi)}')
    # over many calls, every admissible start occurs
    starts = {FixedLengthStochasticTrajectory(4)(10, 20)[0] for _ in range(400)}
    ctx.check(starts == set(range(10, 17)), 'fix-starts', lambda: f'{sorted(starts)}')


def bad(ctx, rng, spec, S):
    lo, hi = S.window
    for out, exc in (((lo - 1, hi), ValueError), ((lo, hi + 1), ValueError), ((lo, lo), ValueError), ((hi, lo), ValueError),
                     ((lo + .5, hi), TypeError), ((lo, hi - .5), TypeError), ((lo, None), TypeError), ((lo,), TypeError), (lo, TypeError), ((lo, hi, hi), TypeError), (('a', 'b'), TypeError)):
        s2 = dict(spec, traj=None, window=None)
        ctx.raises(exc, lambda: Microgrid(gen.module_list(s2), trajectory_func=lambda i, f, o=out: o, **gen.mg_kwargs(s2)), 'invalid-accepted',
                   f'trajectory returning {out} for window {(lo, hi)}')
        ctx.count('rejected')
    s2 = dict(spec, traj=None, window=None)
    ctx.raises(TypeError, lambda: Microgrid(gen.module_list(s2), trajectory_func=5, **gen.mg_kwargs(s2)), 'invalid-accepted', 'not callable')


def run_case(ctx, rng, index):
    kind = ['user', 'user', 'sto', 'fix', 'det'][index % 5]
    spec = gen.spec(rng, T=int(rng.choice([6, 10, 26, 40])), traj=False, custom=False, callable_cost=False, user_fc=False)
    lo, hi = spec['window'] or [spec['ctor_initial'], spec['ctor_final'] or spec['T']]
    if hi - lo < 4:
        spec['window'] = None
        lo, hi = spec['ctor_initial'], spec['ctor_final'] or spec['T']
    if kind == 'sto':
        spec['traj'] = ['sto']
    elif kind == 'fix':
        n = hi - lo if rng.integers(4) == 0 else int(rng.integers(1, hi - lo + 1))
        spec['traj'] = ['fix', n]
    elif kind == 'det':
        a = int(rng.integers(lo, hi))
        spec['traj'] = ['det', a, int(rng.integers(a + 1, hi + 1))]
    ctx.describe(spec)
    if index % 4 == 0:
        direct(ctx, rng)
    S = Session(ctx, rng, spec)
    if index % 3 == 0:
        plain = dict(spec, window=None)
        T = Session(ctx, rng, dict(plain, traj=None))
        bad(ctx, rng, plain, T)
    user = User(rng) if kind == 'user' else None
    if user:
        if spec['window']:
            S.mg.trajectory_func = user
        else:
            S.mg = Microgrid(gen.module_list(spec), trajectory_func=user, **gen.mg_kwargs(spec))
            ctx.check(user.calls and set(user.calls) == {(lo, hi)}, 'construct-call', lambda: f'{user.calls} {(lo, hi)}')
    for _ in range(16 if ctx.thorough else 8):
        n = len(user.calls) if user else 0
        ctx.event('reset')
        S.mg.reset()
        ctx.count('resets')
        k = S.module(S.ref.ts[0].id)
        a, b = k.initial_step, k.final_step
        if user:
            ctx.check(user.calls[n:] == [(lo, hi)], 'reset-call', lambda: f'reset called the trajectory with {user.calls[n:]}, window {(lo, hi)}')
            ctx.check((a, b) == user.out, 'used', lambda: f'episode {(a, b)} but trajectory gave {user.out}')
        ctx.check(lo <= a < b <= hi, 'within', lambda: f'{(a, b)} of {(lo, hi)}')
        if kind == 'fix':
            ctx.check(b - a == spec['traj'][1], 'length', lambda: f'{(a, b)} {spec["traj"]}')
        if kind == 'det':
            ctx.check([a, b] == spec['traj'][1:], 'bounds', lambda: f'{(a, b)} {spec["traj"]}')
        ctx.check((S.mg.initial_step, S.mg.final_step) == (lo, hi), 'configured', lambda: f'window is now {(S.mg.initial_step, S.mg.final_step)}, was {(lo, hi)}')
        ctx.seen(kind, a - lo, hi - b, hi - lo, spec['window'] is not None)
        S.episode = [a, b]
        stop = None if rng.integers(3) else int(rng.integers(0, b - a + 1))
        first = True
        for t in range(a, b):
            if stop is not None and t - a == stop:
                break
            ctx.check(S.mg.current_step == t, 'starts-at', lambda: f'{S.mg.current_step} expected {t} in {(a, b)}')
            rec = do_step(S, style=choose_style(S))
            ctx.check(bool(rec.done) == (t == b - 1), 'done', lambda: f'done={rec.done} at {t} of {(a, b)}')
            u = rng.integers(40)
            if u == 0:
                S.mg = copy.deepcopy(S.mg)
            elif u == 1 and not user:
                S.mg = Microgrid.load(S.mg.dump())
            elif u == 2:
                S.mg.get_log(), S.mg.state_dict(), len(S.mg)
            if user:
                ctx.check(len(user.calls) == n + 1, 'reset-call', 'trajectory called outside a reset')
        else:
            ctx.count('episodes')
            log = S.mg.get_log()
            ctx.check(list(log.index) == list(range(a, b)), 'episode-log', lambda: f'{list(log.index)} for {(a, b)}')
