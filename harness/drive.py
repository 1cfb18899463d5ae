"""Drives a real microgrid through a random history of operations while monitors watch.

A monitor is any object with some of the methods
    start(S), before(S), step(S, rec), reset(S, rec), other(S, op, pre, post)
S is the live session (S.mg the microgrid, S.ref the reference, S.ctx the recorder).
"""
import copy
import io
import os
import shutil
import tempfile

import numpy as np

from pymgrid import Microgrid

from . import gen
from .ref import Ref


class Rec:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Session:
    def __init__(self, ctx, rng, spec, mg=None, cls=Microgrid):
        self.ctx, self.rng, self.spec, self.cls = ctx, rng, spec, cls
        self.ref = Ref(spec)
        self.mg = gen.build(spec, cls=cls) if mg is None else mg
        self.window = list(spec['window'] or [spec.get('ctor_initial', 0), spec.get('ctor_final') or self.ref.length])
        self.episode = list(self.window)      # window of the running episode
        if spec['traj'] and spec['traj'][0] == 'det':
            self.episode = spec['traj'][1:]
        self.rows = []                        # recorded steps since the last reset
        self.style = None
        self.raising = any(m.get('raise_errors') for m in spec['modules'])

    def module(self, rid):
        return self.mg.modules[rid[0]][rid[1]]

    def observe(self):
        """Public state of every module: {id: (state dict, current step)}."""
        sd = self.mg.state_dict()
        return Rec(state={(n, j): dict(d) for n, l in sd.items() for j, d in enumerate(l)},
                   steps={r.id: self.module(r.id).current_step for r in self.ref.all})

    @property
    def t(self):
        return self.module(self.ref.all[0].id).current_step

    def can_step(self):
        return self.ref.length is None or self.t < self.ref.length


STYLES = ['rand', 'rand', 'extreme', 'idle', 'sample', 'strict', 'unnorm', 'over', 'balance', 'full_up', 'full_down', 'trickle', 'mixed']


def choose_style(S):
    if S.raising:
        return S.rng.choice(['feasible', 'feasible_edge', 'balance_feasible'])
    return S.rng.choice(STYLES)


def make_control(S, pre, style):
    """A control dict and whether it is normalized."""
    rng, ref, t = S.rng, S.ref, S.t
    if style in ('sample', 'strict'):
        return S.mg.sample_action(strict_bound=style == 'strict'), True
    normalized = style in ('rand', 'extreme', 'idle', 'full_up', 'full_down')
    remaining = sum(-r.vals[t, 0] for r in ref.ts if r.kind == 'load') - sum(r.vals[t, 0] for r in ref.ts if r.kind == 'renewable')
    if style == 'balance' and rng.integers(2):
        remaining += sum(r.vals[t, 0] for r in ref.ts if r.kind == 'renewable')
    control = {}
    for name in ref.control_names():
        vals = []
        for r in ref.by_name[name]:
            lo, hi = r.act_bounds()
            lo, hi = lo[-1], hi[-1]
            goal = float(rng.choice([0, 1, 1, .5, .2, .8, rng.uniform()]))
            st = style if style != 'mixed' else rng.choice(['unnorm', 'over', 'trickle', 'balance'])
            limits = r.limits(pre.state[r.id], t)
            if r.kind == 'genset':
                if st in ('full_up', 'balance', 'balance_feasible'):
                    goal = 1.0
                elif st in ('idle', 'full_down'):
                    goal = 0.0
                limits = r.limits(pre.state[r.id], t, r.genset_next(pre.state[r.id], int(round(goal)))['current_status'])
            mn, mx, sink = limits
            sink = sink or 0.0
            if st == 'rand':
                e = rng.uniform()
            elif st == 'extreme':
                e = float(rng.integers(2))
            elif st == 'idle':
                e = 0.0 if r.kind == 'genset' else (-lo / (hi - lo) if hi > lo else 0.0)
            elif st == 'full_up':
                e = 1.0
            elif st == 'full_down':
                e = 0.0
            elif st == 'unnorm':
                e = rng.uniform(lo, hi) if hi > lo else 0.0
            elif st == 'over':
                e = rng.choice([1.0 + 1e-6, 1.5, 10.0, 1e3]) * (rng.choice([hi, lo]) if lo < 0 else hi)
            elif st == 'trickle':
                e = (hi if rng.integers(2) else lo) * 10.0 ** -int(rng.integers(1, 9))
            elif st == 'feasible':
                e = rng.uniform(mn, mx) if (not sink or rng.integers(2)) else -rng.uniform(0, sink)
            elif st == 'feasible_edge':
                e = [mn, mx, 0.0 if mn == 0 else mn, -sink if sink else mx][rng.integers(4)]
            else:  # balance: aim for zero imbalance with this module if possible
                e = min(max(remaining, mn), mx) if remaining > 0 else (max(remaining, -sink) if sink else mn)
                remaining -= e
            if r.kind == 'genset' and not normalized:
                e = max(e, 0.0)
            e = float(e)
            if e == round(e) and abs(e) < 1e9 and rng.integers(3) == 0:
                e = int(e)
            vals.append(np.array([goal, e]) if r.kind == 'genset' else e)
        k = rng.integers(4)
        if len(vals) == 1 and ref.by_name[name][0].kind != 'genset' and k == 0:
            control[name] = vals[0]
        elif k == 1 and ref.by_name[name][0].kind != 'genset':
            control[name] = np.array(vals)
        else:
            control[name] = vals
    if normalized and rng.integers(6) == 0 and not S.raising:
        # as agents give them
        control = {n: [np.asarray(v, dtype=np.float32) if np.ndim(v) else np.float32(v) for v in np.atleast_1d(l)] if ref.by_name[n][0].kind != 'genset'
                   else [np.asarray(v, dtype=np.float32) for v in l] for n, l in control.items()}
    if rng.integers(2):
        control = dict(reversed(list(control.items())))
    return control, normalized


def do_step(S, control=None, normalized=None, style=None):
    """One monitored step; returns the record."""
    pre = S.observe()
    t = S.t
    if control is None:
        style = style or S.style
        control, normalized = make_control(S, pre, style)
    exp = S.ref.expect(pre.state, t, control, normalized)
    S.ctx.event('step', t, normalized, style, {k: str(v) for k, v in control.items()})
    obs, reward, done, info = S.mg.run(control, normalized=normalized)
    post = S.observe()
    rec = Rec(pre=pre, post=post, t=t, control=control, normalized=normalized, exp=exp, obs=obs, reward=reward, done=done,
              info=info, style=style)
    S.rows.append(rec)
    S.ctx.count('steps')
    return rec


def energies(info, r):
    """(provided, absorbed) a module reported in the info of a step."""
    d = info[r.name][r.num]
    return d.get('provided_energy', 0.0), d.get('absorbed_energy', 0.0)


def roundtrip_string(mg):
    return type(mg).load(mg.dump())


def roundtrip_file(mg):
    d = tempfile.mkdtemp(prefix='pymgrid-verif-')
    try:
        path = os.path.join(d, 'mg.yaml')
        with open(path, 'w') as f:
            mg.dump(f)
        with open(path) as f:
            return type(mg).load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def queries(S):
    """Read-only calls a user may interleave anywhere."""
    mg, rng = S.mg, S.rng
    for q in rng.choice(['log', 'state', 'norm', 'limits', 'repr', 'spaces', 'attrs', 'dir', 'len', 'forecast', 'views', 'cost'], 4):
        if q == 'log':
            mg.get_log(as_frame=bool(rng.integers(2)), drop_singleton_key=bool(rng.integers(2)))
        elif q == 'state':
            mg.state_dict(), mg.state_series()
        elif q == 'norm':
            mg.state_dict(normalized=True), mg.state_series(normalized=True)
        elif q == 'limits':
            for r in S.ref.all:
                m = S.module(r.id)
                if not r.is_ts or S.can_step():
                    m.max_production, m.max_consumption, m.min_production, m.marginal_cost
                if r.kind == 'genset':
                    m.next_status(1), m.next_status(0), m.next_max_production(1), m.next_min_production(0)
        elif q == 'repr':
            repr(mg), str(mg.modules)
        elif q == 'spaces':
            mg.microgrid_action_space, mg.microgrid_observation_space
        elif q == 'attrs':
            mg.modules.get_attrs('current_step', 'module_type'), mg.get_empty_action()
        elif q == 'dir':
            dir(mg)
        elif q == 'len':
            if S.ref.length is not None:
                len(mg)
            mg.n_modules
        elif q == 'forecast':
            for r in S.ref.ts:
                if not (r.fc and isinstance(r.fc['f'], float)):      # draws random numbers
                    S.module(r.id).forecast()
        elif q == 'views':
            mg.fixed, mg.flex, mg.controllable, mg.module_list, mg.modules.to_tuples()
        elif q == 'cost':
            if S.can_step():
                mg.get_cost_info()


def set_forecaster(S):
    """Random forecaster change through one of the public ways; updates the reference."""
    rng, ref, mg = S.rng, S.ref, S.mg
    fc = gen.forecaster(rng, ref.spec['T'], user=not gen.dumpable(S.spec), p_none=.2)
    if fc and fc['f'] in gen.SCALAR_FCS and any(r.kind == 'grid' for r in ref.ts):
        fc = dict(fc, f='half')
    if fc and fc['f'] in gen.FCS and (S.episode[1] - S.episode[0] < 4 or S.spec['traj']):
        fc = None           # validating a user-defined forecaster takes three steps
    way = rng.choice(['all', 'dict', 'module', 'horizon'])
    if not ref.ts:
        return None
    if way == 'all':
        mg.set_forecaster(**gen.fc_kwargs(fc))
        changed = ref.ts
    elif way == 'dict':
        names = [n for n in ref.names if ref.by_name[n][0].is_ts]
        pick = [n for n in names if rng.integers(2)] or [names[0]]
        kw = gen.fc_kwargs(fc)
        f = kw.pop('forecaster')
        mg.set_forecaster({n: f for n in pick}, **kw)
        changed = [r for r in ref.ts if r.name in pick]
    elif way == 'module':
        r = ref.ts[rng.integers(len(ref.ts))]
        S.module(r.id).set_forecaster(**gen.fc_kwargs(fc))
        changed = [r]
    else:
        r = ref.ts[rng.integers(len(ref.ts))]
        h = int(rng.integers(0, 12))
        if r.fc and r.fc['iu'] and isinstance(r.fc['f'], float):
            return None
        S.module(r.id).forecast_horizon = h
        fc = dict(r.fc, h=h) if r.fc else dict(f='oracle', h=h, iu=False, rel=False) if h else None
        changed = [r]
    for r in changed:
        r.fc = fc
    return way, [r.id for r in changed], fc


def set_series(S):
    """Replace the time series of a module; updates the reference."""
    if not S.ref.ts:
        return None
    r = S.ref.ts[S.rng.integers(len(S.ref.ts))]
    v = np.array(r.vals[S.rng.permutation(len(r.vals))])
    f = float(S.rng.choice([.25, 1.0, 3.0]))
    if r.kind == 'grid':
        v[:, :3] *= f
        if S.rng.integers(2):
            v[:, 3] = S.rng.uniform(size=len(v)) < S.rng.choice([0.0, .5, .9, 1.0])
    else:
        v *= f
        S.ref.escale = max(S.ref.escale, float(np.abs(v).max()) * len(S.ref.all))
    given = np.abs(v) if r.kind == 'load' and S.rng.integers(2) else v.copy()
    S.module(r.id).time_series = given if r.kind == 'grid' or S.rng.integers(2) else given[:, 0].tolist()
    r.vals = v
    return r.id, f


OPS = dict(step=1.0, reset=.04, deepcopy=.02, yaml=.015, file=.004, query=.08, window=.015, forecaster=.02, soc=.01)


def drive(ctx, rng, spec, monitors, n_ops=60, ops=None, cls=Microgrid, swap_is_ours=False, session=None):
    """Run a random history. Exceptions from reloads only matter to the property about reloading (swap_is_ours)."""
    S = session or Session(ctx, rng, spec, cls=cls)
    w = dict(OPS)
    w.update(ops or {})
    if spec.get('long'):
        n_ops = max(n_ops, spec['T'] + 60)
        w = {k: v * (1 if k == 'step' else .3 if k == 'query' else .02) for k, v in w.items()}
        ctx.count('long')
    if not gen.dumpable(spec):
        w['yaml'] = w['file'] = 0
    if S.ref.length is None or S.ref.length < 4 or spec['traj']:
        w['window'] = 0
    if not S.ref.ts:
        w['forecaster'] = 0
    names = list(w)
    p = np.array([w[n] for n in names], dtype=float)
    p /= p.sum()

    def tell(method, *a):
        for m in monitors:
            f = getattr(m, method, None)
            if f is not None:
                f(S, *a)
    tell('start')
    S.style = choose_style(S)
    for _ in range(n_ops):
        op = str(rng.choice(names, p=p))
        if op == 'step' and not S.can_step():
            op = 'reset'
        if op == 'step':
            if rng.integers(4) == 0:
                S.style = choose_style(S)
            tell('before')
            tell('step', do_step(S))
            continue
        pre = S.observe()
        if op == 'reset':
            ctx.event('reset')
            out = S.mg.reset()
            old_rows, S.rows = S.rows, []
            ctx.count('resets')
            tell('reset', Rec(pre=pre, post=S.observe(), out=out, rows=old_rows))
            continue
        if op == 'deepcopy':
            S.mg = copy.deepcopy(S.mg)
        elif op in ('yaml', 'file'):
            try:
                new = roundtrip_string(S.mg) if op == 'yaml' else roundtrip_file(S.mg)
            except Exception:
                if swap_is_ours:
                    raise
                ctx.count('swap_failed')
                continue
            S.mg = new
        elif op == 'query':
            queries(S)
        elif op == 'window':
            a = int(rng.integers(0, S.ref.length - 2))
            b = int(rng.integers(a + 1, S.ref.length + 1))
            S.mg.initial_step, S.mg.final_step = a, b
            S.window = S.episode = [a, b]
            out = S.mg.reset()
            old_rows, S.rows = S.rows, []
            ctx.event('window', a, b)
            ctx.count('windows')
            tell('reset', Rec(pre=pre, post=S.observe(), out=out, rows=old_rows))
            continue
        elif op == 'forecaster':
            what = set_forecaster(S)
            ctx.event('forecaster', what)
            if what is None:
                continue
        elif op == 'series':
            what = set_series(S)
            ctx.event('series', what)
            if what is None:
                continue
        elif op == 'soc':
            bats = [r for r in S.ref.all if r.kind == 'battery']
            if not bats:
                continue
            r = bats[rng.integers(len(bats))]
            v = float(rng.choice([r.m['min'], r.m['max'], rng.uniform(r.m['min'], r.m['max'])]))
            if rng.integers(2):
                S.module(r.id).current_charge = v
            else:
                S.module(r.id).soc = v / r.m['max']
            ctx.close(S.module(r.id).current_charge, v, 'charge-set', f'{r.id}: charge after it was set', scale=r.m['max'])
        ctx.event(op)
        ctx.count('op_' + op)
        tell('other', op, pre, S.observe())
    return S
