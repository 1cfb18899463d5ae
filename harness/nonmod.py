"""Non-modular microgrids: random specs that both simulators can represent, commands, and a reference simulator."""
import numpy as np

from . import gen


def spec(rng, horizon=None, kinds=None, T=None):
    """A modular spec with at most one module of each kind, which has a non-modular counterpart."""
    T = T or int(rng.choice([3, 6, 12, 30]))
    h = int(rng.choice([0, 0, 1, 2, 5, 23])) if horizon is None else horizon
    s = gen.spec(rng, T=T, scale=float(rng.choice([10.0, 200.0, 5e3, 1e5])), raise_errors=False, custom=False, window=False,
                 times=False, callable_cost=False, need=('load', 'renewable'), max_each=1, kinds=kinds, forecasts=False,
                 fc_common=dict(f='oracle', h=h, iu=False, rel=False) if h else None)
    co2cost = float(rng.choice([0.0, .1, 1.5]))
    for m in s['modules']:
        if 'co2cost' in m:
            m['co2cost'] = co2cost
        if m['kind'] == 'genset' and m['max'] == 0:
            m['max'] = 1.0
    s['horizon'] = h
    return s


class Params:
    """What a non-modular microgrid should consist of, from a spec."""

    def __init__(self, s):
        by = {m['kind']: m for m in s['modules']}
        self.load = np.abs(np.array(by['load']['ts'], dtype=float))
        self.pv = np.abs(np.array(by['renewable']['ts'], dtype=float))
        self.llc, self.ogc, self.co2cost = s['llc'], s['ogc'], 0.0
        self.battery = self.genset = self.grid = None
        if 'battery' in by:
            b = by['battery']
            self.battery = dict(capacity=b['max'], soc_min=b['min'] / b['max'], soc_max=1.0, charge=b['charge'], discharge=b['discharge'],
                                eff=b['eff'], cost=b['cost'], soc=b['init'] / b['max'])
        if 'genset' in by:
            g = by['genset']
            self.genset = dict(min=g['min'], max=g['max'], fuel=g['cost'], co2=g['co2'])
            self.co2cost = g['co2cost']
        if 'grid' in by:
            g = by['grid']
            ts = np.array(g['ts'], dtype=float)
            if ts.shape[1] == 3:
                ts = np.column_stack([ts, np.ones(len(ts))])
            self.grid = dict(imp=g['imp'], exp=g['exp'], ts=ts)
            self.co2cost = g['co2cost']
        self.T = len(self.load)

    @classmethod
    def read(cls, mg):
        """From the public description of a generated non-modular microgrid (parameter table, architecture and data)."""
        self = cls.__new__(cls)
        p = {k: v[0] for k, v in mg.get_parameters().to_dict('list').items()}
        load, pv = mg.get_data()
        self.load, self.pv = load.to_numpy()[:, 0].astype(float), pv.to_numpy()[:, 0].astype(float)
        self.T = min(len(self.load), len(self.pv))
        self.llc, self.ogc, self.co2cost = float(p['cost_loss_load']), float(p['cost_overgeneration']), float(p['cost_co2'])
        self.battery = self.genset = self.grid = None
        a = mg.architecture
        if a['battery']:
            self.battery = dict(capacity=float(p['battery_capacity']), soc_min=float(p['battery_soc_min']), soc_max=float(p['battery_soc_max']),
                                charge=float(p['battery_power_charge']), discharge=float(p['battery_power_discharge']),
                                eff=float(p['battery_efficiency']), cost=float(p['battery_cost_cycle']), soc=float(p['battery_soc_0']))
        if a['genset']:
            self.genset = dict(min=float(p['genset_rated_power'] * p['genset_pmin']), max=float(p['genset_rated_power'] * p['genset_pmax']),
                               fuel=float(p['fuel_cost']), co2=float(p['genset_co2']))
        if a['grid']:
            cols = [mg._grid_price_import, mg._grid_price_export, mg._grid_co2, mg._grid_status_ts]
            self.grid = dict(imp=float(p['grid_power_import']), exp=float(p['grid_power_export']),
                             ts=np.column_stack([c.to_numpy()[:self.T, 0].astype(float) for c in cols]))
        return self

    def rows(self, lo, hi):
        """The same microgrid on a part of the data."""
        out = Params.__new__(Params)
        out.__dict__.update(self.__dict__)
        out.load, out.pv, out.T = self.load[lo:hi], self.pv[lo:hi], hi - lo
        if self.grid:
            out.grid = dict(self.grid, ts=self.grid['ts'][lo:hi])
        return out

    @property
    def scale(self):
        v = [1.0, self.load.max(), self.pv.max()]
        if self.battery:
            v += [self.battery['capacity'], self.battery['charge'], self.battery['discharge']]
        if self.genset:
            v.append(self.genset['max'])
        if self.grid:
            v += [self.grid['imp'], self.grid['exp']]
        return float(max(v))

    def command(self, rng, t, soc, style):
        """A control dict for the non-modular simulator."""
        c = {}
        S = self.scale
        if style == 'feasible':
            # feasible for both simulators
            c0 = {}
            if self.battery:
                b = self.battery
                free, avail = max(b['soc_max'] - soc, 0) * b['capacity'], max(soc - b['soc_min'], 0) * b['capacity']
                k = rng.integers(4)
                c0['battery_charge'] = float(rng.uniform(0, min(b['charge'], free * b['eff']))) if k == 0 else \
                    float(min(b['charge'], free * b['eff']) * (1 - 1e-9)) if k == 3 and rng.integers(2) else 0.0
                c0['battery_discharge'] = float(rng.uniform(0, 1) * min(b['discharge'], avail) * b['eff'] * (1 - 1e-9)) if k == 1 else 0.0
            if self.grid:
                st = self.grid['ts'][t, 3]
                k = rng.integers(3)
                c0['grid_import'] = float(rng.uniform(0, self.grid['imp']) * st) if k == 0 else 0.0
                c0['grid_export'] = float(rng.uniform(0, self.grid['exp']) * st) if k == 1 else 0.0
            if self.genset:
                c0['genset'] = float(rng.uniform(self.genset['min'], self.genset['max'])) if rng.integers(2) else 0.0
            return c0

        def val(limit):
            k = rng.integers(8)
            return float([0.0, rng.uniform(0, limit) if limit > 0 else 0.0, limit, limit * 1.000001, limit * 3 + 1, -rng.uniform(0, 1) * S,
                          rng.uniform(0, S), rng.uniform(0, 1.2)][k])
        if self.battery:
            c['battery_charge'], c['battery_discharge'] = val(self.battery['charge']), val(self.battery['discharge'])
            if style == 'exclusive':
                c[str(rng.choice(list(c)))] = 0.0
        if self.grid:
            g = {'grid_import': val(self.grid['imp']), 'grid_export': val(self.grid['exp'])}
            if style == 'exclusive':
                g[str(rng.choice(list(g)))] = 0.0
            c.update(g)
        if self.genset:
            c['genset'] = val(self.genset['max']) if rng.integers(3) else float(self.genset['min'] * rng.uniform(0, 1.5))
        if style != 'exclusive' and rng.integers(3) == 0:
            # aim for (almost) no imbalance
            need = self.load[t] - self.pv[t] * float(rng.choice([0, 1, .5]))
            key = [k for k in ('grid_import', 'genset', 'battery_discharge') if k in c]
            if key:
                k = str(rng.choice(key))
                for o in c:
                    c[o] = 0.0
                c[k] = float(max(0.0, need + float(rng.choice([0.0, 1e-4, -1e-4, 5e-3, -5e-3]))))
        return c

    def expect(self, t, soc, cmd):
        """Flows, emissions, costs and next state of charge of one step."""
        out, cost = {}, {}
        src, snk = 0.0, self.load[t]
        if self.battery:
            b = self.battery
            free, avail = max(b['soc_max'] * b['capacity'] - soc * b['capacity'], 0), max(soc * b['capacity'] - b['soc_min'] * b['capacity'], 0)
            ch = min(max(cmd['battery_charge'], 0.0), b['charge'], free * b['eff'])
            dis = min(max(cmd['battery_discharge'], 0.0), b['discharge'], avail * b['eff'])
            out['battery_charge'], out['battery_discharge'] = ch, dis
            soc = soc + (ch * b['eff'] - dis / b['eff']) / b['capacity']
            cost['battery'] = (ch + dis) * b['cost']
            src, snk = src + dis, snk + ch
        co2 = 0.0
        if self.grid:
            i, e = min(max(cmd['grid_import'], 0.0), self.grid['imp']), min(max(cmd['grid_export'], 0.0), self.grid['exp'])
            out['grid_import'], out['grid_export'] = i, e
            p = self.grid['ts'][t]
            cost['grid_import'], cost['grid_export'] = p[0] * i, -p[1] * e
            co2 += p[2] * i
            src, snk = src + i, snk + e
        if self.genset:
            g = max(cmd['genset'], 0.0)
            if 1 < g < self.genset['min']:
                g = self.genset['min']
            g = min(g, self.genset['max'])
            out['genset'] = g
            cost['genset'] = g * self.genset['fuel']
            co2 += g * self.genset['co2']
            src += g
        cost['co2'] = co2 * self.co2cost
        need = snk - src
        out['need'] = need
        pv = self.pv[t]
        out['pv_consummed'] = min(max(need, 0.0), pv)
        out['pv_curtailed'] = pv - out['pv_consummed']
        out['loss_load'] = max(need - pv, 0.0)
        out['overgeneration'] = max(-need, 0.0)
        return out, co2, cost, soc
