"""C22 reward shaping."""
import copy

import numpy as np

from .. import gen
from ..drive import Session, do_step, drive, energies
from ..monitors import last_row

RULE = ('One case drives a random microgrid with a provided or a recording user-defined shaper; a twin without a shaper runs in '
        'lockstep. A situation is (shaper, sign of the shaped reward, several modules of the shaped name, zero load).')
CASES = dict(quick=320, thorough=5000)
MIN = dict(steps=6000, pv=1000, battery=1000, user=1000, unshaped=1000, nonzero_pv=150, nonzero_battery=300, zero_load=60, clamped=20)
ASSUMPTIONS = ['provided shapers read modules named pv, battery, load, balancing and unbalanced_energy, as documented']


class Recorder:
    def __init__(self):
        self.calls = []
        self.out = None

    def __call__(self, step_info, cost_info):
        self.calls.append((copy.deepcopy(step_info), copy.deepcopy(cost_info)))
        tot = sum(d.get('provided_energy', 0.0) - .5 * d.get('absorbed_energy', 0.0) for l in step_info.values() for d in l)
        self.out = float(tot) + 1.25
        return self.out


def run_case(ctx, rng, index):
    kind = ['pv', 'battery', 'user', None][index % 4]
    spec = gen.spec(rng, raise_errors=False, T=int(rng.choice([5, 10, 26])), noise=False,
                    need=('load', {'pv': 'renewable', 'battery': 'battery'}.get(kind, 'grid')), traj=False)
    for m in spec['modules']:        # names the provided shapers look for, sometimes
        if rng.integers(3):
            m['name'] = {'renewable': 'pv', 'battery': 'battery', 'load': 'load', 'balancing': ['balancing', 'unbalanced_energy'][index % 2]}.get(m['kind'], m['name'])
        if kind == 'battery' and m['kind'] == 'load' and rng.integers(3) == 0:
            m['ts'] = [x if rng.integers(2) else 0.0 for x in m['ts']]
    spec['shaper'] = kind if kind in ('pv', 'battery') else None
    ctx.describe(spec)
    rec_fn = Recorder() if kind == 'user' else None
    S = Session(ctx, rng, spec)
    twin_spec = dict(spec, shaper=None)
    twin = gen.build(twin_spec)
    if rec_fn:
        S.mg.reward_shaping_func = rec_fn
        if rng.integers(2):
            mg = gen.build(twin_spec)
            S.mg = type(mg)(gen.module_list(spec), add_unbalanced_module=spec['unbalanced'] == 'default',
                            loss_load_cost=spec['llc'], overgeneration_cost=spec['ogc'], reward_shaping_func=rec_fn)
            if spec['window']:
                S.mg.initial_step, S.mg.final_step = spec['window']
                S.mg.reset()
    ref = S.ref
    for k in range(80 if ctx.thorough else 40):
        if not S.can_step() or rng.integers(14) == 0:
            S.mg.reset(), twin.reset()
        n_calls = len(rec_fn.calls) if rec_fn else 0
        marg = {r.id: S.module(r.id).marginal_cost for r in ref.all}
        rec = do_step(S, style=rng.choice(['rand', 'extreme', 'over', 'balance', 'full_up', 'full_down', 'trickle', 'unnorm']))
        _, r0, d0, i0 = twin.run(copy.deepcopy(rec.control), normalized=rec.normalized)
        row, _ = last_row(S)
        for r in ref.all:
            ctx.check(energies(i0, r) == energies(rec.info, r), 'physics', lambda: f'{r.id}: {energies(i0, r)} vs {energies(rec.info, r)} with a shaper')
        ctx.check(d0 == rec.done, 'physics-done')
        ctx.check({n: [dict(d) for d in l] for n, l in twin.state_dict().items()} == {n: [dict(d) for d in l] for n, l in S.mg.state_dict().items()},
                  'physics-state', 'state differs from that of a twin without shaper')
        ctx.check(row[('balance', 0, 'reward')] == r0, 'unshaped-log', lambda: f'logged {row[("balance", 0, "reward")]}, unshaped {r0}')
        ctx.check(row[('balance', 0, 'shaped_reward')] == rec.reward, 'shaped-log', lambda: f'{row[("balance", 0, "shaped_reward")]} vs {rec.reward}')
        get = lambda names, j: sum(energies(rec.info, r)[j] for r in ref.all if r.name in names)
        if kind is None:
            ctx.check(rec.reward == r0, 'unshaped', lambda: f'{rec.reward} vs {r0}')
            ctx.count('unshaped')
        elif kind == 'user':
            ctx.check(len(rec_fn.calls) == n_calls + 1, 'user-called', lambda: f'shaper called {len(rec_fn.calls) - n_calls} times in a step')
            ctx.check(rec.reward == rec_fn.out, 'user-reward', lambda: f'{rec.reward} vs {rec_fn.out}')
            info, cost = rec_fn.calls[-1]
            for r in ref.all:
                ctx.check(energies(info, r) == energies(rec.info, r), 'user-info', lambda: f'{r.id} {info[r.name][r.num]} vs {rec.info[r.name][r.num]}')
            ctx.check(set(cost) == set(ref.names) and all(len(cost[n]) == len(ref.by_name[n]) for n in cost), 'cost-info', lambda: f'{cost}')
            for r in ref.all:
                c = cost[r.name][r.num]
                ctx.check('production_marginal_cost' in c and 'absorption_marginal_cost' in c, 'cost-info', lambda: f'{c}')
                want = self_cost(r, rec.t, spec)
                ctx.close(c['production_marginal_cost'], want[0], 'marginal-cost', f'{r.id} t={rec.t} production')
                ctx.close(c['absorption_marginal_cost'], want[1], 'marginal-cost', f'{r.id} t={rec.t} absorption')
            ctx.count('user')
        elif kind == 'pv':
            want = -sum(rec.info[r.name][r.num].get('curtailment', 0.0) for r in ref.all if r.name == 'pv')
            ctx.close(rec.reward, want, 'pv-shaper', f't={rec.t}', scale=ref.escale * 1e-3)
            avail = sum(r.vals[rec.t, 0] - energies(rec.info, r)[0] for r in ref.all if r.name == 'pv')
            ctx.close(rec.reward, -avail, 'pv-shaper', f't={rec.t} available minus used', scale=ref.escale)
            ctx.count('pv')
            ctx.count('nonzero_pv', int(want < 0))
        else:
            load = get(('load',), 1)
            diff = get(('battery',), 0) - get(('balancing', 'unbalanced_energy'), 0)
            want = 0.0 if load == 0 else min(1.0, max(-1.0, diff / load))
            ctx.check(-1 <= rec.reward <= 1, 'battery-range', lambda: f'{rec.reward}')
            ctx.close(rec.reward, want, 'battery-shaper', f't={rec.t} battery minus loss {diff} load {load}', rtol=1e-7)
            ctx.count('battery')
            ctx.count('nonzero_battery', int(want != 0))
            ctx.count('zero_load', int(load == 0))
            ctx.count('clamped', int(load > 0 and abs(diff / load) > 1))
        ctx.seen(kind, rec.reward > 0, rec.reward < 0, sum(r.name in ('pv', 'battery') for r in ref.all), bool(rec.done))
        if k % 10 == 9 and kind != 'user' and gen.dumpable(spec):
            S.mg = copy.deepcopy(S.mg)


def self_cost(r, t, spec):
    """(production, absorption) marginal cost: per-unit costs of the module at the step."""
    m = r.m
    if r.kind == 'battery':
        return m['cost'], m['cost']
    if r.kind == 'genset':
        fuel = gen.COSTS[m['cost']](1.0) if isinstance(m['cost'], str) else m['cost']
        return fuel + m['co2'] * m['co2cost'], 0.0
    if r.kind == 'grid':
        v = r.value(t)
        return v[0], v[1]
    if r.kind == 'balancing':
        return spec['llc'], spec['ogc']
    return 0.0, 0.0
