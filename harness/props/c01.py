"""C01 conservation: random module mixes driven through random histories; without a balancing module, errors instead."""
import numpy as np

from .. import gen
from ..drive import drive, Session, make_control, energies, Rec
from ..monitors import Energy

RULE = ('One case is one microgrid (random module mix, series, parameters, window) driven through a random history of steps, '
        'resets, copies, reloads, queries and forecaster changes; a situation is the multiset of (module kind, sign of provided, '
        'sign of absorbed) of one step. Every fifth case has no balancing module.')
CASES = dict(quick=640, thorough=12000)
MIN = dict(steps=8000, logged_totals=1500, must_raise=150, must_raise_small=40, must_not_raise=60)
ASSUMPTIONS = ['energies are compared to 1e-9 of the largest energy in the microgrid']


def unbalanced(ctx, rng, spec):
    """Without a balancing module: an error exactly if the modules cannot balance."""
    S = Session(ctx, rng, spec)
    mon = Energy(p_log=1.0)
    for _ in range(40):
        if not S.can_step():
            S.mg.reset()
            S.rows = []
        pre, t = S.observe(), S.t
        control, norm = make_control(S, pre, rng.choice(['rand', 'balance', 'balance', 'balance', 'extreme', 'idle']))
        if not norm and rng.integers(3) == 0:
            # leave a small imbalance
            f = 1 + float(rng.choice([-1, 1])) * 10.0 ** -rng.uniform(1.5, 3.9)
            for name, c in control.items():
                kind = S.ref.by_name[name][0].kind
                control[name] = [np.array([x[0], x[1] * f]) if kind == 'genset' else float(x * f) for x in (c if hasattr(c, '__len__') else [c])]
        exp = S.ref.expect(pre.state, t, control, norm)
        gap = abs(exp['unbalanced'])
        size = max(1.0, S.ref.escale)
        flow = max(sum(o[k] for o in exp['modules'].values()) for k in ('provided', 'absorbed'))
        raise_from = 1e-4 * flow + 1e-6      # an order of magnitude above what counts as rounding
        ctx.event('step', t, norm, {k: str(v) for k, v in control.items()}, 'gap', gap)
        if 1e-11 * size < gap < raise_from:
            # too close to the tolerance of the balance check to say
            try:
                S.mg.run(control, normalized=norm)
            except RuntimeError:
                pass
            ctx.count('near_tolerance')
            continue
        if gap >= raise_from:
            ctx.raises(RuntimeError, lambda: S.mg.run(control, normalized=norm), 'unbalanced-accepted',
                       f'step {t} leaves {gap} unbalanced')
            ctx.count('must_raise')
            ctx.count('must_raise_small', gap < 1e-2 * flow)
            ctx.seen('raise', exp['net'] > 0, tuple(sorted(r.kind for r in S.ref.all)))
        else:
            obs, reward, done, info = S.mg.run(control, normalized=norm)
            mon.step(S, Rec(info=info, t=t))
            ctx.count('must_not_raise')


def run_case(ctx, rng, index):
    if index % 5 == 0:
        spec = gen.spec(rng, balancing=False, raise_errors=False, scale=float(rng.choice([1.0, 50.0, 1e4])))
        ctx.describe(spec)
        return unbalanced(ctx, rng, spec)
    spec = gen.spec(rng, max_each=3, crowd=True, long=True)
    ctx.describe(spec)
    drive(ctx, rng, spec, [Energy()], n_ops=120 if ctx.thorough else 60, ops=dict(series=.01))
