"""C30 user-defined modules."""
import copy
import warnings

import numpy as np

from pymgrid import Microgrid
from pymgrid.envs import ContinuousMicrogridEnv
from pymgrid.modules import BatteryModule, GridModule, LoadModule, RenewableModule

from ..custom import Backup, ControllableLoad, Flywheel, Heater, Hydro, MustTake, RunOfRiver, Tank

RULE = ('One case is one microgrid of random built-in and user-defined modules (fixed sources, controllable loads, reservoirs and tanks, '
        'flexible sinks, sources and stores with limits) driven through random episodes with its own bookkeeping of every limit, level, cost and flow; '
        'a situation is (kinds of flexible module, which of them were at their limits, deficit or excess).')
CASES = dict(quick=480, thorough=9000)
MIN = dict(steps=7000, excess=2500, deficit=2500, flex_full=1500, overgeneration=800, loss_load=800, raised=100, env_steps=400, sampled=400, copies=200, reloaded=150)
ASSUMPTIONS = ['user-defined modules implement update, bounds, limits and state as the base classes document', 'energies to 1e-9 of the largest energy']


class R:
    """What the harness expects of one module."""

    def __init__(self, kind, mod, **kw):
        self.kind, self.mod, self.level = kind, mod, kw.get('level', 0.0)
        self.__dict__.update(kw)
        self.level0 = self.level

    def limits(self, t):
        """(most it can give, most it can take) at step t."""
        k = self.kind
        if k == 'must_take':
            return self.vals[t], 0.0
        if k == 'controllable_load':
            return 0.0, self.vals[t]
        if k in ('hydro', 'tank', 'flywheel'):
            return min(self.source, self.level), (min(self.sink, self.room - self.level) if k != 'hydro' else 0.0)
        if k == 'river':
            return self.source, -self.least
        if k == 'heater':
            return 0.0, self.sink
        return self.source, 0.0


def build(rng, T, raise_errors):
    size = float(rng.choice([1.0, 30.0, 2e4]))
    pos = lambda: float(size * rng.uniform(.1, 1))
    refs, mods = [], []

    def add(r, name=None):
        refs.append(r)
        mods.append((name, r.mod) if name else r.mod)
        r.name = name or r.mod.module_type[0]

    fc = lambda: dict(forecaster=rng.choice([None, 'oracle']), forecast_horizon=int(rng.integers(1, 5)))
    for _ in range(int(rng.integers(0, 3))):
        v, c = size * rng.uniform(size=T), float(rng.choice([0, .5]))
        add(R('must_take', MustTake(v, cost=c, **fc()), vals=v, cost=c))
    for _ in range(int(rng.integers(0, 3))):
        v, c = size * rng.uniform(size=T), float(rng.choice([0, 1.5]))
        add(R('controllable_load', ControllableLoad(v, benefit=c, raise_errors=raise_errors, **fc()), vals=v, cost=-c))
    for cls, kind in ((Hydro, 'hydro'), (RunOfRiver, 'river'), (Tank, 'tank'), (Flywheel, 'flywheel'), (Heater, 'heater'), (Backup, 'backup')):
        for j in range(int(rng.choice([0, 0, 1, 2]))):
            kw = dict(source=pos(), sink=pos(), cost=float(rng.choice([0, .3, 2])))
            if kind in ('hydro', 'tank', 'flywheel'):
                room = pos() * float(rng.choice([1, 5]))
                kw.update(room=room, level=room * float(rng.uniform()))
            if kind == 'heater':
                kw['source'] = 0.0
            if kind == 'river':
                del kw['sink']
                kw['least'] = kw['source'] * float(rng.choice([0, .3, 1]))
            add(R(kind, cls(raise_errors=raise_errors, **{dict(source='source_limit', sink='sink_limit').get(k, k): v for k, v in kw.items()}), **kw), name=f'{kind}_{j}' if rng.integers(3) == 0 else None)
    demand, sun = size * rng.uniform(size=T) * float(rng.choice([.2, 1, 3])), size * rng.uniform(size=T) * (rng.uniform(size=T) < .6)
    builtin = [LoadModule(time_series=demand), ('pv', RenewableModule(time_series=sun))]
    battery = rng.integers(2)
    if battery:
        builtin.append(BatteryModule(min_capacity=0, max_capacity=4 * size, max_charge=size, max_discharge=size, efficiency=.9, init_soc=.5))
    mods += builtin
    order = rng.permutation(len(mods))
    costs = float(rng.choice([10, 3.5])), float(rng.choice([2, 0]))
    mg = Microgrid([mods[i] for i in order], loss_load_cost=costs[0], overgeneration_cost=costs[1])
    # modules of one name keep the order in which they were given
    for n in {r.name for r in refs}:
        same = [refs[i] for i in order if i < len(refs) and refs[i].name == n]
        for k, r in enumerate(same):
            r.num = k
    return size, mg, refs, demand, sun, bool(battery), costs


def run_case(ctx, rng, index):
    warnings.simplefilter('ignore')
    T = int(rng.integers(4, 40))
    raising = rng.integers(4) == 0
    size, mg, refs, demand, sun, battery, (c_loss, c_over) = build(rng, T, raising)
    ctx.describe(dict(T=T, size=size, kinds=[r.kind for r in refs], names=[r.name for r in refs], raising=bool(raising), battery=battery))
    tol = 1e-9 * size * 10
    flex = [r for r in refs if r.kind in ('flywheel', 'heater', 'backup')]
    ctl = [r for r in refs if r.kind in ('controllable_load', 'hydro', 'river', 'tank')]
    names = {r.name for r in ctl} | ({'battery'} if battery else set())
    got = [{n for n, _ in c.iterdict()} for c in (mg.controllable, mg.flex)]
    ctx.check(got == [names, {r.name for r in flex} | {'pv', 'balancing'}], 'categories', lambda: f'{got}')
    get = lambda m, r: m.modules[r.name][r.num]
    env = ContinuousMicrogridEnv.from_microgrid(mg) if names else None
    rows = 0
    for episode in range(int(rng.integers(1, 4))):
        mg.reset()
        rows = 0
        for r in refs:
            if r.kind in ('hydro', 'tank', 'flywheel'):
                ctx.close(get(mg, r).level, r.level, 'level-kept', r.name, scale=size)
        stop = int(rng.integers(1, T + 1))
        for t in range(stop):
            norm = bool(rng.integers(2)) and not raising
            # what each controllable module is asked for, in energy
            sampled = mg.sample_action(strict_bound=True) if norm and names and rng.integers(3) == 0 else None
            asks, control = {}, {n: [] for n in names}
            for n in names:
                group = sorted((r for r in ctl if r.name == n), key=lambda r: r.num)
                for r in group:
                    up, down = r.limits(t)
                    m = get(mg, r)
                    lo, hi = float(np.min(m.min_act)), float(np.max(m.max_act))
                    e = float(rng.choice([rng.uniform(-down, up), up, -down, 0.0] + ([] if raising else [rng.uniform(lo, hi), lo, hi])))
                    if raising:
                        e = min(max(e, -down), up)
                    if sampled is not None:
                        e = lo + float(sampled[n][r.num]) * (hi - lo)
                        ctx.check(-down - tol <= e <= up + tol , 'sampled-within-limits', lambda: f'{r.name}: {e} of {up}, {down}') if r.kind != 'river' else None
                        ctx.count('sampled')
                    asks[r] = e
                    control[n].append((e - lo) / (hi - lo if hi > lo else 1.0) if norm else e)
                if not group:
                    control[n].append(rng.uniform() if norm else 0.0)
            if raising and ctl and rng.integers(6) == 0:
                r = ctl[rng.integers(len(ctl))]
                up, down = r.limits(t)
                bad = {n: list(v) for n, v in control.items()}
                bad[r.name][r.num] = (up + size) if r.kind != 'controllable_load' and rng.integers(2) else -(down + size) if r.kind not in ('hydro', 'river') else up + size
                if r.kind == 'river' and r.least > 0 and rng.integers(2):
                    bad[r.name][r.num] = float(rng.choice([0.0, .5, .99])) * r.least
                twin = copy.deepcopy(mg)
                ctx.raises(ValueError, lambda: twin.run(bad, normalized=False), 'over-limit', f'{r.name} asked for {bad[r.name]} of {up}, {down}')
                ctx.count('raised')
            pre = {r: get(mg, r).state_dict() for r in refs}
            twin = copy.deepcopy(mg) if rng.integers(12) == 0 else None
            loaded = Microgrid.load(mg.dump()) if rng.integers(20) == 0 else None
            obs, reward, done, info = mg.run(control, normalized=norm)
            ctx.count('steps')
            rows += 1
            if twin is not None:
                o2, w2, d2, i2 = twin.run(control, normalized=norm)
                ctx.check((w2, d2, repr(i2), repr(o2)) == (reward, done, repr(info), repr(obs)), 'copy', lambda: f'{w2} {d2} {i2} expected {reward} {done} {info}')
                ctx.count('copies')
            if loaded is not None:
                o2, w2, d2, i2 = loaded.run(control, normalized=norm)
                ctx.check((w2, d2, repr(i2), repr(o2)) == (reward, done, repr(info), repr(obs)), 'reloaded', lambda: f'{w2} {d2} {i2} expected {reward} {done} {info}')
                a, b = loaded.log, mg.log
                ctx.check(set(a.columns) == set(b.columns) and a[b.columns].equals(b), 'reloaded-log', lambda: f'{a} {b}')
                ctx.count('reloaded')
            flow = {}
            for n, l in info.items():
                for k, i in enumerate(l):
                    flow[n, k] = i.get('provided_energy', 0.0) - i.get('absorbed_energy', 0.0)
            ctx.check(abs(sum(flow.values())) <= tol * len(flow), 'balance', lambda: f'{flow} at {t}')
            cost = 0.0
            for r in refs:
                up, down = r.limits(t)
                e = flow[r.name, r.num]
                if r.kind == 'must_take':
                    want = up
                elif r in asks:
                    want = min(max(asks[r], -down), up)
                else:
                    want = None
                    ctx.check(-down - tol <= e <= up + tol, 'flex-limits', lambda: f'{r.name} gave {e}, limits {up}, {down}')
                if want is not None:
                    ctx.check(abs(e - want) <= tol * 10, 'as-asked', lambda: f'{r.name} at {t}: {e} expected {want} (asked {asks.get(r)})')
                cost += r.cost * abs(e)
                r.last = e
            ctx.check(abs(flow['load', 0] + demand[t]) <= tol, 'load', lambda: f'{flow["load", 0]} expected {-demand[t]}')
            bal = flow['balancing', 0]
            cost += c_loss * max(bal, 0) - c_over * min(bal, 0)
            ctx.check(abs(reward + cost) <= 1e-9 * max(1.0, size * 50), 'reward', lambda: f'{reward} expected {-cost}: {flow}')
            # nothing is lost or dumped while a flexible module can help
            net = sum(v for k, v in flow.items() if k[0] not in {r.name for r in flex} | {'pv', 'balancing'})
            room_up = sum(r.limits(t)[0] for r in flex) + sun[t]
            room_down = sum(r.limits(t)[1] for r in flex)
            if net > 0:
                ctx.check(abs(bal + max(0.0, net - room_down)) <= tol * 10, 'overgeneration', lambda: f'{bal} with an excess of {net} and room for {room_down}: {flow}')
                ctx.check(all(r.last <= tol for r in flex) and flow['pv', 0] <= tol, 'flex-direction', lambda: f'{flow}')
                ctx.count('excess')
                ctx.count('overgeneration', bal < -tol)
            else:
                ctx.check(abs(bal - max(0.0, -net - room_up)) <= tol * 10, 'loss-load', lambda: f'{bal} with a deficit of {-net} and {room_up} available: {flow}')
                ctx.check(all(r.last >= -tol for r in flex), 'flex-direction', lambda: f'{flow}')
                ctx.count('deficit')
                ctx.count('loss_load', bal > tol)
            full = tuple(sorted(r.kind for r in flex if abs(r.last) > tol and abs(abs(r.last) - r.limits(t)[0 if net <= 0 else 1]) <= tol))
            ctx.count('flex_full', len(full))
            ctx.seen(tuple(sorted(r.kind for r in flex)), full, net > 0)
            # levels and states
            for r in refs:
                m = get(mg, r)
                if r.kind in ('hydro', 'tank', 'flywheel'):
                    r.level -= r.last
                    ctx.check(abs(m.level - r.level) <= tol * 10, 'level', lambda: f'{r.name}: {m.level} expected {r.level}')
                    r.level = m.level
                st = m.state_dict(normalized=True)
                ctx.check(all(-1e-6 <= v <= 1 + 1e-6 for v in st.values()), 'unit-range', lambda: f'{r.name}: {st}')
                ctx.check(np.allclose(np.atleast_1d(obs[r.name][r.num]), list(st.values())), 'observation', lambda: f'{r.name}: {obs[r.name][r.num]} expected {st}')
                ctx.check(m.current_step == t + 1, 'clock', lambda: f'{r.name}: {m.current_step} expected {t + 1}')
            ctx.check(bool(done) == (t >= T - 1), 'done', lambda: f'{done} after step {t} of {T}')
            # the log holds the row of this step
            r = refs[rng.integers(len(refs))] if refs else None
            if r is not None:
                row = get(mg, r).log.iloc[-1]
                key = {'must_take': ('taken', None), 'controllable_load': (None, 'served')}.get(r.kind, ('provided_energy', 'absorbed_energy'))
                if r.kind not in ('must_take', 'controllable_load'):
                    ctx.check(abs(row['heat'] - 2 * abs(r.last)) <= tol, 'log-own-info', lambda: f'{r.name}: {row}')
                ctx.check(abs(row['reward'] + r.cost * abs(r.last)) <= tol * 2, 'log-reward', lambda: f'{r.name}: {row}')
                for name, want in zip(key, (max(r.last, 0), max(-r.last, 0))):
                    if name:
                        ctx.check(abs(row[name] - want) <= tol, 'log-flow', lambda: f'{r.name} {name}: {row[name]} expected {want}')
                for k, v in pre[r].items():
                    ctx.close(row[k], v, 'log-state', f'{r.name} {k}', scale=size)
            if done:
                break
        ctx.check(len(mg.log) == rows, 'log-length', lambda: f'{len(mg.log)} expected {rows}')
    if env is not None:
        o = env.reset()
        env.action_space.seed(int(rng.integers(1 << 30)))
        for t in range(min(3, T)):
            a = env.action_space.sample()
            ctx.check(o in env.observation_space, 'observation-space', lambda: f'{o}')
            o, w, d, i = env.step(a) if not raising else (o, 0, 0, 0)
            ctx.count('env_steps')
