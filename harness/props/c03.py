"""C03 gensets: random histories in microgrids, and long goal sequences over every combination of times and settings."""
import itertools

import numpy as np

from .. import gen
from ..drive import drive, Session, do_step
from ..monitors import Genset

RULE = ('One case is either one random microgrid with gensets driven through a random history, or one genset of an enumerated '
        'combination of (start-up 0-5, wind-down 0-5, abortion, initial status) driven by a sequence of goals (runs of equal goals, '
        'single flips, uniform); a situation is (times, abortion, state before, goal, producing).')
CASES = dict(quick=432, thorough=6000)
MIN = dict(genset_steps=15000, genset_changes=1500, genset_aborts=300, genset_unabortable=300)
ASSUMPTIONS = ['a request is a step with a goal, rounded to the nearest of 0 and 1 (halves to even)']
COMBOS = list(itertools.product(range(6), range(6), (True, False), (True, False)))


def goals(rng, n):
    out = []
    kind = rng.integers(4)
    while len(out) < n:
        if kind == 0:
            out.append(int(rng.integers(2)))
        elif kind == 1:
            out += [int(rng.integers(2))] * int(rng.integers(1, 9))
        elif kind == 2:      # almost complete changes
            g = int(rng.integers(2))
            out += [g] * int(rng.integers(1, 7)) + [1 - g]
        else:
            out += [1, 0] if rng.integers(2) else [1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0]
    return out[:n]


def run_case(ctx, rng, index):
    n = 200 if ctx.thorough else 60
    if index % 3 == 0:
        spec = gen.spec(rng, long=True, need=('load', 'genset'), forecasts=False, max_each=3)
        ctx.describe(spec)
        drive(ctx, rng, spec, [Genset()], n_ops=n)
        return
    up, down, abort, on = COMBOS[(index - index // 3 - 1) % len(COMBOS)]
    spec = gen.spec(rng, T=60, kinds=['load', 'genset'], need=('load', 'genset'), forecasts=False, window=False, max_each=1,
                    raise_errors=False)
    for m in spec['modules']:
        if m['kind'] == 'genset':
            m.update(up=up, down=down, abort=abort, init_on=on)
    ctx.describe(spec)
    S = Session(ctx, rng, spec)
    mon = Genset()
    mon.start(S)
    name = S.ref.control_names()[0]
    r = S.ref.by_name[name][0]
    for g in goals(rng, n):
        if not S.can_step():
            S.mg.reset()
        mon.before(S)
        x = float(g if rng.integers(2) else (rng.uniform(0, .49) if g == 0 else rng.uniform(.51, 1)))
        x = .5 if g == 0 and rng.integers(6) == 0 else x
        norm = bool(rng.integers(2))
        e = float(rng.uniform(0, 1.2) if norm else rng.choice([0, .5, 1, 1.5]) * r.m['max'])
        rec = do_step(S, {name: [np.array([x, min(e, 1.0) if norm else e])]}, norm)
        mon.step(S, rec)
