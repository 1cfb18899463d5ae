"""C13 isolation."""
import copy

import numpy as np
import pandas as pd

from pymgrid import Microgrid
from pymgrid.algos import RuleBasedControl
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv

from .. import gen
from ..drive import Session, make_control, choose_style, roundtrip_string
from .c14 import same

RULE = ('One case builds several objects (microgrids, environments, controllers, copies, reloads) from shared modules and arrays, '
        'drives them in random interleavings, mutates the shared inputs, and compares each with an untouched twin; a situation is '
        '(object kinds, operation that ran in between).')
CASES = dict(quick=320, thorough=4000)
MIN = dict(interleaved_steps=6000, inputs_checked=300, mutations=250, controls_checked=6000, rbc=60, envs=100)
ASSUMPTIONS = ['user-defined callables are stateless']


def snap(x):
    """Deep, comparable snapshot of a module's, microgrid's or array's observable contents."""
    if isinstance(x, Microgrid):
        return [x.state_dict(), x.get_log().to_dict('list'), [[m.current_step, m.initial_step, list(m.name)] for m in x.modules.to_list()],
                [list(map(float, np.ravel(getattr(m, 'time_series', np.zeros(0))))) for m in x.modules.to_list()], x.modules.names()]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return [x.to_numpy().tolist(), list(map(str, x.index))]
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if hasattr(x, 'state_dict'):
        return [x.state_dict(), x.log_dict(), x.current_step, x.initial_step, str(x.name),
                list(map(float, np.ravel(getattr(x, 'time_series', np.zeros(0)))))]
    return x


def _window(initial, final):
    return initial, max(initial + 1, final - 1)


def run_case(ctx, rng, index):
    spec = gen.spec(rng, noise=False, traj=False, max_each=2, raise_errors=False, times=True,
                    T=int(rng.choice([6, 10, 20])), scale=float(rng.choice([1.0, 50.0])))
    if index % 4 == 0:
        n_ctl = 0      # keep the number of deployment orders small
        keep = []
        for m in spec['modules']:
            n_ctl += m['kind'] in ('battery', 'grid') or 2 * (m['kind'] == 'genset')
            if m['kind'] in ('load', 'renewable', 'balancing') or n_ctl <= 4:
                keep.append(m)
        spec['modules'] = keep
    ctx.describe(spec)
    # inputs: arrays passed to modules, modules passed to microgrids
    arrays, mods = [], []
    for m in spec['modules']:
        a = gen._ts(m) if 'ts' in m else None
        orig, gen_ts = a, gen._ts
        try:
            gen._ts = lambda _m, a=a: a
            mod = gen.module(m, spec)
        finally:
            gen._ts = gen_ts
        arrays.append(orig)
        mods.append(mod if m['name'] is None else (m['name'], mod))
    inputs = [a for a in arrays if a is not None]
    before_arrays = snap(inputs)
    before_mods = snap([m[1] if isinstance(m, tuple) else m for m in mods])
    n_given = len(mods)

    def make(kind):
        if kind == 'microgrid':
            return gen.build(spec, modules=mods)
        if kind == 'copy':
            return copy.deepcopy(first)
        if kind == 'load':
            return roundtrip_string(first) if gen.dumpable(spec) else copy.deepcopy(first)
        if kind == 'env':
            ctx.count('envs')
            return ContinuousMicrogridEnv.from_microgrid(first)
        return gen.build(spec, modules=mods)

    def step(mg, control, norm):
        if isinstance(mg, ContinuousMicrogridEnv):
            return Microgrid.run(mg, control, normalized=norm)
        return mg.run(control, normalized=norm)

    first = gen.build(spec, modules=mods)
    S = Session(ctx, rng, spec, mg=first)
    text = first.dump() if gen.dumpable(spec) else None
    kinds = [str(k) for k in rng.choice(['microgrid', 'copy', 'load', 'env' if S.ref.controllable else 'copy'], int(rng.integers(2, 4)))]
    objs = [('microgrid', first)] + [(k, make(k)) for k in kinds]
    twins = [copy.deepcopy(o) for _, o in objs]        # driven without interleaving, at the end
    hist = [[] for _ in objs]
    outs = [[] for _ in objs]
    if index % 4 == 0 and S.ref.controllable:
        owner = copy.deepcopy(first)
        if rng.integers(2):
            owner.trajectory_func = _window
        if rng.integers(2):
            owner.reset()
        if rng.integers(2):
            owner.run(owner.sample_action())
        base = snap(owner)
        rbc = RuleBasedControl(owner)
        rbc.run(int(rng.integers(1, 6)))
        env = DiscreteMicrogridEnv.from_microgrid(owner)
        env.reset()
        for _ in range(3):
            if env.step(env.action_space.sample())[2]:
                env.reset()
        ctx.check(repr(snap(owner)) == repr(base), 'controller-touches', 'building or running a controller or environment changed the microgrid')
        # and the other way round
        kept = snap(rbc.microgrid)
        for _ in range(2):
            owner.reset()
            owner.run(owner.sample_action())
        ctx.check(repr(snap(rbc.microgrid)) == repr(kept), 'controller-shares', 'running a microgrid changed the controller built from it')
        ctx.count('rbc')
    mutated = False
    for k in range(60 if ctx.thorough else 30):
        j = int(rng.integers(len(objs)))
        kind, mg = objs[j]
        Sj = Session(ctx, rng, spec, mg=mg)
        others = [i for i in range(len(objs)) if i != j]
        i = others[int(rng.integers(len(others)))]
        other_before = snap(objs[i][1]) if rng.integers(3) == 0 else None
        if not Sj.can_step() or rng.integers(15) == 0:
            Microgrid.reset(mg)
            hist[j].append(None)
            outs[j].append(None)
        else:
            control, norm = make_control(Sj, Sj.observe(), str(rng.choice(['rand', 'extreme', 'unnorm', 'over', 'sample', 'balance'])))
            keep = copy.deepcopy(control)
            out = step(mg, control, norm)
            same(ctx, keep, control, 'control-changed', 'control passed to run')
            ctx.count('controls_checked')
            hist[j].append((keep, norm))
            outs[j].append(copy.deepcopy(out))
        ctx.count('interleaved_steps')
        if other_before is not None:
            ctx.check(repr(snap(objs[i][1])) == repr(other_before), 'cross-talk', lambda: f'stepping a {kind} changed a {objs[i][0]}')
            ctx.seen('pair', kind, objs[i][0], hist[j][-1] is None)
        if not mutated and k > 8 and rng.integers(6) == 0:
            ctx.check(snap(inputs) == before_arrays, 'array-changed', 'an input array was changed')
            ctx.check(repr(snap([m[1] if isinstance(m, tuple) else m for m in mods])) == repr(before_mods) and len(mods) == n_given,
                      'module-changed', 'an input module was changed')
            ctx.count('inputs_checked')
            mutated = True
            own = snap([m[1] if isinstance(m, tuple) else m for m in mods])
            for a in inputs:
                if isinstance(a, np.ndarray):
                    a[:] = 7.0
                elif isinstance(a, list):
                    a[:] = [7.0] * len(a)
                else:
                    a.iloc[:] = 7.0
            ctx.check(repr(snap([m[1] if isinstance(m, tuple) else m for m in mods])) == repr(own), 'array-shared',
                      'a module changed with the array it was built from')
            for m in mods:
                m = m[1] if isinstance(m, tuple) else m
                if hasattr(m, 'time_series'):
                    m.time_series[:] = 3.0
                m.initial_step = 1
                if hasattr(m, 'max_capacity'):
                    m.max_capacity *= 5
                    m.current_charge = m.min_capacity
                if hasattr(m, 'running_max_production'):
                    m.running_max_production *= 5
            ctx.count('mutations')
    # every object, replayed alone on its twin
    for j, (kind, mg) in enumerate(objs):
        for h, o in zip(hist[j], outs[j]):
            if h is None:
                Microgrid.reset(twins[j])
                continue
            got = step(twins[j], copy.deepcopy(h[0]), h[1])
            same(ctx, list(o), list(got), 'interference', f'{kind}: interleaved vs alone')
        ctx.check(repr(snap(mg)) == repr(snap(twins[j])), 'interference-state', lambda: f'{kind}: final state differs from its twin')
