"""C16 rule-based control."""
import numpy as np

from pymgrid.algos import RuleBasedControl

from .. import gen
from ..deploy import deploy, expected_lists, marginal_cost
from ..drive import Session, do_step, choose_style
from ..monitors import ENERGY_NAMES
from .c13 import snap
from .c15 import small

RULE = ('One case runs rule-based control, with its own and with explicit priority lists, on a random microgrid from a random '
        'reachable state, and compares each logged step with the reference deployment; a situation is (order kinds, on/off, length).')
CASES = dict(quick=240, thorough=3000)
MIN = dict(runs=400, compared=2500, invalid=400, default_lists=150, explicit_lists=150)
ASSUMPTIONS = ['remaining demand of at most 1e-4 units counts as covered; steps meeting a remainder between 0.9e-4 and 1.1e-4 are not compared',
               'modules do not raise errors on infeasible requests']


def check_run(ctx, rng, S, rbc, order, start, max_steps):
    ref = S.ref
    log = rbc.run(max_steps) if max_steps is not None else rbc.run()
    lo, hi = S.episode
    n = hi - lo if max_steps is None else min(max_steps, hi - lo)
    ctx.check(len(log) == n and list(log.index) == list(range(lo, lo + n)), 'run-length', lambda: f'{len(log)} steps {list(log.index)[:3]}.. of {S.episode}, asked {max_steps}')
    ctx.check(log.equals(rbc.microgrid.get_log()), 'run-log', 'returned log differs from that of its microgrid')
    ctx.count('runs')
    state = {i: dict(s) for i, s in start.items()}       # batteries and gensets keep their state over a reset
    for k in range(n):
        t = lo + k
        row = log.iloc[k]
        control, skip = deploy(ref, state, t, order)
        exp = ref.expect(state, t, {m: [np.array(c) if isinstance(c, list) else c for c in l] for m, l in control.items()}, False)
        for r in ref.all:
            e = exp['modules'][r.id]
            pn, an = ENERGY_NAMES[r.kind]
            p = row[(r.name, r.num, pn)] if pn else 0.0
            a = row[(r.name, r.num, an)] if an else 0.0
            if not skip:
                ctx.close(p, e['provided'], 'rbc-deployed', f't={t} {r.id} provides, order {order}', scale=ref.escale, rtol=1e-7)
                ctx.close(a, e['absorbed'], 'rbc-deployed', f't={t} {r.id} absorbs, order {order}', scale=ref.escale, rtol=1e-7)
            if r.kind == 'battery':
                c = state[r.id]['current_charge'] + r.internal(p, a, state[r.id])
                c = min(max(c, r.m['min']), r.m['max'])
                if k + 1 < n:
                    c = log.iloc[k + 1][(r.name, r.num, 'current_charge')]
                state[r.id] = dict(current_charge=c, soc=c / r.m['max'])
            elif r.kind == 'genset':
                state[r.id] = e['next']
        ctx.count('compared', int(not skip))
    ctx.seen('run', tuple((ref.by_id[i].kind, a) for i, a in order), n)
    return state


def run_case(ctx, rng, index):
    spec = gen.spec(rng, T=int(rng.choice([5, 10, 26])), scale=float(rng.choice([.01, .5, 50.0, 1e3, 1e5])), raise_errors=False,
                    need=('load', ['battery', 'grid', 'genset'][index % 3]))
    rng.shuffle(spec['modules'])
    if not small(rng, spec, 5):
        return
    if not spec['window'] and not spec['ctor_final'] and rng.integers(3) == 0:
        a = int(rng.integers(0, spec['T']))
        spec['traj'] = ['det', a, int(rng.integers(a + 1, spec['T'] + 1))]
    ctx.describe(spec)
    fresh = bool(rng.integers(2))
    S = Session(ctx, rng, spec, mg=gen.build(spec, fresh=fresh))
    S.style = 'rand'
    for _ in range(0 if fresh else int(rng.integers(0, 12))):
        if not S.can_step():
            S.mg.reset()
        do_step(S, style=choose_style(S))
    before = repr(snap(S.mg))
    start = S.observe().state
    redundant = bool(rng.integers(2))
    rbc = RuleBasedControl(S.mg, remove_redundant_gensets=redundant)
    order = [(tuple(el.module), el.action) for el in rbc.priority_list]
    t = S.t
    costs = [marginal_cost(S.ref.by_id[i], t) for i, _ in order]
    ctx.check(sorted(i for i, _ in order) == sorted(r.id for r in S.ref.controllable), 'default-list', lambda: f'{order}')
    ctx.check(all(a <= b + 1e-12 * max(1, abs(b)) for a, b in zip(costs, costs[1:])), 'cheapest-first', lambda: f'{order} costs {costs}')
    ctx.check(all(a == 1 for i, a in order if S.ref.by_id[i].kind == 'genset'), 'genset-off', lambda: f'{order} never deploys a genset')
    ctx.check(all(abs(el.marginal_cost - c) <= 1e-9 * max(1, abs(c)) for el, c in zip(rbc.priority_list, costs)), 'marginal-cost',
              lambda: f'{rbc.priority_list} costs {costs}')
    ctx.count('default_lists')
    cur = check_run(ctx, rng, S, rbc, order, start, None if rng.integers(2) else int(rng.integers(1, spec['T'] + 5)))
    if rng.integers(2):
        check_run(ctx, rng, S, rbc, order, cur, None)       # and again: it starts from a reset
    ctx.check(repr(snap(S.mg)) == before, 'rbc-touches', 'rule-based control changed the microgrid it was built from')
    lists = RuleBasedControl(S.mg, remove_redundant_gensets=redundant).get_priority_lists(redundant)
    got = [tuple((tuple(el.module), el.action) for el in pl) for pl in lists]
    ctx.check(set(got) == expected_lists(S.ref, redundant) and len(got) == len(set(got)), 'priority-lists', lambda: f'{got[:5]}')
    j = int(rng.integers(len(lists)))
    chosen = list(lists[j]) if rng.integers(2) else lists[j]
    rbc2 = RuleBasedControl(S.mg, priority_list=chosen, remove_redundant_gensets=redundant)
    check_run(ctx, rng, S, rbc2, got[j], start, int(rng.integers(1, 12)))
    ctx.count('explicit_lists')
    ctx.check(repr(snap(S.mg)) == before, 'rbc-touches', 'rule-based control changed the microgrid it was built from')
    bad = [tuple(chosen)[:-1], tuple(chosen) + tuple(chosen)[:1], ()]
    if len(chosen) > 1:
        bad.append((chosen[0],) * len(chosen))
    for b in bad:
        ctx.raises(ValueError, lambda: RuleBasedControl(S.mg, priority_list=b, remove_redundant_gensets=redundant), 'invalid-list', f'{b}')
        ctx.count('invalid')
