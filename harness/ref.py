"""Independent reference model: what one step of a microgrid must do, from its spec and its observed state before the step.

Nothing here reads pymgrid's internals: time series, limits and costs come from the spec; state comes from the public
state dictionaries.
"""
import numpy as np

from . import gen

DEFAULT_NAME = dict(load='load', renewable='renewable', battery='battery', genset='genset', grid='grid', balancing='balancing')
CATEGORY = dict(load=('fixed', 'sinks'), renewable=('flex', 'sources'), battery=('controllable', 'source_and_sinks'),
                genset=('controllable', 'sources'), grid=('controllable', 'source_and_sinks'),
                balancing=('flex', 'source_and_sinks'))
GRID_COMPONENTS = ['import_price', 'export_price', 'co2_per_kwh', 'grid_status']


class RefModule:
    def __init__(self, m, s, num):
        self.m, self.kind = m, m['kind']
        self.name, self.num = m['name'] or DEFAULT_NAME[self.kind], num
        self.id = (self.name, num)
        self.category = CATEGORY[self.kind]
        self.fc = m.get('fc')
        self.llc, self.ogc = s['llc'], s['ogc']
        if self.kind == 'load':
            self.vals = -np.abs(np.array(m['ts'], dtype=float)).reshape(-1, 1)
            self.components = ['load']
        elif self.kind == 'renewable':
            self.vals = np.abs(np.array(m['ts'], dtype=float)).reshape(-1, 1)
            self.components = ['renewable']
        elif self.kind == 'grid':
            v = np.array(m['ts'], dtype=float)
            self.vals = v if v.shape[1] == 4 else np.concatenate([v, np.ones((len(v), 1))], 1)
            self.components = GRID_COMPONENTS
        else:
            self.vals = None

    # ---- time series -------------------------------------------------------------------------------------------------
    @property
    def is_ts(self):
        return self.vals is not None

    def value_bounds(self):
        """Bounds of one time step of observations."""
        lo, hi = self.vals.min(0), self.vals.max(0)
        if self.kind != 'grid':
            lo, hi = np.minimum(lo, 0), np.maximum(hi, 0)
        return lo, hi

    def value(self, t):
        if t < len(self.vals):
            return self.vals[t]
        lo, hi = self.value_bounds()
        return (lo + hi) / 2

    def forecast(self, t):
        """Expected forecast (h, components), with nan where it is random; None without a forecaster."""
        if self.fc is None:
            return None
        lo, hi = self.value_bounds()
        h, f = self.fc['h'], self.fc['f']
        mid = (lo + hi) / 2
        out = np.tile(mid, (h, 1)).astype(float)
        n_true = max(0, min(h, len(self.vals) - t - 1))
        if t >= len(self.vals):
            return out
        true = self.vals[t + 1:t + 1 + n_true]
        if f == 'oracle' or f == 0.0:
            out[:n_true] = true
        elif isinstance(f, float):
            out[:n_true] = np.nan
        elif f in gen.SCALAR_FCS:
            for k in range(n_true):
                out[k] = gen.FCS[f](self.vals[t], true[k], k + 1)
        elif n_true:
            out[:n_true] = gen.FCS[f](self.vals[t], true, h)
        return np.clip(out, lo, hi)

    # ---- state and observation ---------------------------------------------------------------------------------------
    def obs_bounds(self):
        m = self.m
        if self.is_ts:
            lo, hi = self.value_bounds()
            h = self.fc['h'] if self.fc else 0
            return np.tile(lo, 1 + h), np.tile(hi, 1 + h)
        if self.kind == 'battery':
            return np.array([m['min'] / m['max'], m['min']]), np.array([1.0, m['max']])
        if self.kind == 'genset':
            return np.zeros(4), np.array([1.0, 1.0, m['up'], m['down']])
        return np.zeros(0), np.zeros(0)

    def act_bounds(self):
        m = self.m
        if self.kind == 'battery':
            return np.array([-m['charge'] / m['eff']]), np.array([m['discharge'] * m['eff']])
        if self.kind == 'genset':
            return np.array([0.0, 0.0]), np.array([1.0, m['max']])
        if self.kind == 'grid':
            return np.array([-m['exp']]), np.array([m['imp']])
        if self.kind == 'renewable':
            lo, hi = self.value_bounds()
            return lo, hi
        return np.zeros(0), np.zeros(0)

    def state_keys(self):
        if self.is_ts:
            return [f'{c}_current' for c in self.components] + \
                   [f'{c}_forecast_{j}' for j in range(self.fc['h'] if self.fc else 0) for c in self.components]
        return {'battery': ['soc', 'current_charge'], 'genset': ['current_status', 'goal_status', 'steps_until_up', 'steps_until_down'],
                'balancing': []}[self.kind]

    def ts_state(self, t):
        """Expected state vector of a time series module at time t (nan where random)."""
        f = self.forecast(t)
        return np.concatenate([self.value(t)] + ([] if f is None else [f.reshape(-1)]))

    # ---- limits ------------------------------------------------------------------------------------------------------
    def limits(self, state, t, status=None):
        """(min production, max production, max consumption) in the given state at time t."""
        m = self.m
        if self.kind == 'battery':
            c = state['current_charge']
            return 0.0, min(m['discharge'], c - m['min']) * m['eff'], min(m['charge'], m['max'] - c) / m['eff']
        if self.kind == 'genset':
            on = state['current_status'] if status is None else status
            return on * m['min'], on * m['max'], None
        if self.kind == 'grid':
            on = self.vals[t, 3]
            return 0.0, on * m['imp'], on * m['exp']
        if self.kind == 'renewable':
            return 0.0, self.vals[t, 0], None
        if self.kind == 'load':
            return None, None, -self.vals[t, 0]
        return 0.0, np.inf, np.inf

    def genset_next(self, state, goal):
        """Genset state after a request for status `goal`."""
        m = self.m
        cur, tgt, up, down = (int(state[k]) for k in self.state_keys())
        wait = {1: m['up'], 0: m['down']}
        left = {1: up, 0: down}
        if cur == tgt:
            if goal != cur:
                if wait[goal] == 0:
                    cur = tgt = goal
                else:
                    tgt = goal
                    left[goal] -= 1
        else:
            # a change to tgt is in progress
            if goal == cur and (m['abort'] or wait[goal] == 0):
                tgt = cur
            elif left[tgt] == 0:
                cur = tgt
            else:
                left[tgt] -= 1
        if cur == tgt:      # at rest: countdowns are those of a future change
            left = {1: 0, 0: m['down']} if cur else {1: m['up'], 0: 0}
        return dict(current_status=cur, goal_status=tgt, steps_until_up=left[1], steps_until_down=left[0])

    # ---- transitions -------------------------------------------------------------------------------------------------
    def request(self, control, normalized):
        """(goal or None, requested energy) of a control for this module."""
        if self.kind == 'genset':
            goal, e = float(control[0]), float(control[1])
            if normalized:
                spread = self.m['max'] or 1.0
                e = spread * e
            return int(round(goal)), e
        c = control
        while hasattr(c, '__len__'):
            c = c[0]
        c = float(c)
        if normalized:
            lo, hi = (b[0] for b in self.act_bounds())
            c = lo + ((hi - lo) or 1.0) * c
        return None, c

    def cost(self, provided, absorbed, pre, t, internal=None):
        """Expected reward of this module."""
        m = self.m
        if self.kind == 'battery':
            if internal is None:
                internal = self.internal(provided, absorbed, pre)
            return -abs(internal) * m['cost']
        if self.kind == 'genset':
            fuel = gen.COSTS[m['cost']](provided) if isinstance(m['cost'], str) else m['cost'] * provided
            return -(fuel + m['co2cost'] * m['co2'] * provided)
        if self.kind == 'grid':
            p, x, co2, _ = self.vals[t]
            return -p * provided - m['co2cost'] * co2 * provided + x * absorbed
        if self.kind == 'balancing':
            return -self.llc * provided - self.ogc * absorbed
        return 0.0

    def internal(self, provided, absorbed, pre):
        """Change of stored energy of a battery."""
        m = self.m
        ext = absorbed - provided
        if m['tm']:
            _, prod, cons = self.limits(pre, None)
            return gen.TMS[m['tm']](external_energy_change=ext, min_capacity=m['min'], max_capacity=m['max'], max_charge=m['charge'],
                                    max_discharge=m['discharge'], efficiency=m['eff'], battery_cost_cycle=m['cost'], max_production=prod,
                                    max_consumption=cons, state_dict=pre)
        return ext / m['eff'] if ext < 0 else ext * m['eff']

    def co2(self, provided, t):
        if self.kind == 'genset':
            return self.m['co2'] * provided
        if self.kind == 'grid':
            return self.vals[t, 2] * provided
        return None


class Ref:
    """Reference of a whole microgrid."""

    def __init__(self, spec):
        self.spec = spec
        counts, self.given = {}, []
        for m in spec['modules']:
            name = m['name'] or DEFAULT_NAME[m['kind']]
            self.given.append(RefModule(m, spec, counts.get(name, 0)))
            counts[name] = counts.get(name, 0) + 1
        if spec['unbalanced'] == 'default':
            self.given.append(RefModule(dict(kind='balancing', name=None), spec, counts.get('balancing', 0)))
        order = [(a, b) for a in ('fixed', 'flex', 'controllable') for b in ('sources', 'sinks', 'source_and_sinks')]
        names = []
        for cat in order:
            for r in self.given:
                if r.category == cat and r.name not in names:
                    names.append(r.name)
        self.names = names
        self.by_name = {n: [r for r in self.given if r.name == n] for n in names}
        self.all = [r for n in names for r in self.by_name[n]]
        self.by_id = {r.id: r for r in self.all}
        self.fixed = [r for r in self.all if r.category[0] == 'fixed']
        self.controllable = [r for r in self.all if r.category[0] == 'controllable']
        self.flex = [r for r in self.all if r.category[0] == 'flex']
        self.ts = [r for r in self.all if r.is_ts]
        self.length = min([len(r.vals) for r in self.ts], default=None)
        big = [spec['scale']]
        for r in self.all:
            m = r.m
            big += [m[k] for k in ('max', 'charge', 'discharge', 'imp', 'exp') if k in m]
            if r.kind in ('load', 'renewable'):
                big.append(np.abs(r.vals).max())
        # rounding errors are proportional to the largest energy around, summed over modules
        self.escale = float(max(big)) * max(1, len(self.all))

    def control_names(self):
        return [n for n in self.names if self.by_name[n][0].category[0] == 'controllable']

    def expect(self, pre, t, control, normalized):
        """Expected outcome of run(control): {id: dict(provided, absorbed, request, goal, ...)} in running order.

        pre: {id: state dict} before the step; t: time step."""
        out = {}
        for r in self.fixed:
            out[r.id] = dict(provided=0.0, absorbed=-r.vals[t, 0], acted='sink')
        net = -sum(o['absorbed'] for o in out.values())
        for r in self.controllable:
            c = control[r.name]
            c = c[r.num] if hasattr(c, '__len__') else c
            goal, req = r.request(c, normalized)
            o = dict(request=req, goal=goal)
            state = pre[r.id]
            if r.kind == 'genset':
                o['next'] = r.genset_next(state, goal)
                lo, hi, sink = r.limits(state, t, o['next']['current_status'])
            else:
                lo, hi, sink = r.limits(state, t)
            o['limits'] = (lo, hi, sink)
            if req >= 0:
                o.update(provided=min(max(req, lo), hi), absorbed=0.0, acted='source', infeasible=req > hi or req < lo)
            else:
                o.update(provided=0.0, absorbed=min(-req, sink), acted='sink', infeasible=-req > sink)
            out[r.id] = o
            net += o['provided'] - o['absorbed']
        out_net = net
        if net > 0:
            left = net
            for r in self.flex:
                o = dict(provided=0.0, absorbed=0.0, acted='source' if r.kind == 'renewable' else 'sink')
                if r.kind == 'balancing':
                    o['absorbed'], left = left, 0.0
                out[r.id] = o
        else:
            left = -net
            for r in self.flex:
                take = left if r.kind == 'balancing' else min(left, r.vals[t, 0])
                out[r.id] = dict(provided=take, absorbed=0.0, acted='source')
                left -= take
        for r in self.all:
            o = out[r.id]
            if r.kind == 'renewable':
                o['curtailment'] = r.vals[t, 0] - o['provided']
            o['reward'] = r.cost(o['provided'], o['absorbed'], pre[r.id], t)
        return dict(modules=out, net=out_net, unbalanced=left)
