"""C18 conversion between modular and non-modular microgrids."""
import copy

import numpy as np

from pymgrid import Microgrid
from pymgrid.MicrogridGenerator import MicrogridGenerator
from pymgrid._deprecated.non_modular_microgrid import NonModularMicrogrid
from pymgrid.envs import ContinuousMicrogridEnv, DiscreteMicrogridEnv

from .. import gen, nonmod

RULE = ('One case converts a random modular or a generated non-modular microgrid, and back, compares all parameters and series with the '
        'specification, and drives the original and the converted microgrids with one feasible dispatch, comparing every flow, state of '
        'charge and cost; a situation is (components, direction of conversion, kinds of flows in the step).')
CASES = dict(quick=800, thorough=12000)
MIN = dict(steps=8000, pairs=800, attributes=9000, rejected=300, generated=40, other_data=20, stepped=80, midway=200, started=3000, midway_from_modular=20)
ASSUMPTIONS = ['dispatch is feasible in both simulators: they limit charging differently', 'a net demand within 1e-3 units of the available '
               'renewable energy counts as met exactly by the non-modular simulator',
               'the non-modular simulator charges cycling per unit exchanged and the modular one per unit stored: battery costs are compared at efficiency 1']
DEFAULT = dict(load='load', renewable='renewable', battery='battery', genset='genset', grid='grid', balancing='balancing')
CONVERTED = dict(load='load', renewable='PV', battery='battery', genset='genset', grid='grid', balancing='unbalanced_energy')


def check_nonmodular(ctx, n, P, horizon):
    ok = lambda a, b, what: (ctx.close(float(a), float(b), 'to-nonmodular', what, rtol=1e-12), ctx.count('attributes'))
    a = n.architecture
    ctx.check((bool(a['PV']), bool(a['battery']), bool(a['genset']), bool(a['grid'])) == (True, bool(P.battery), bool(P.genset), bool(P.grid)),
              'to-nonmodular', lambda: f'architecture {a}')
    load, pv = n.get_data()
    ctx.arr_close(load.to_numpy()[:, 0], P.load, 'to-nonmodular', 'load series', rtol=1e-12)
    ctx.arr_close(pv.to_numpy()[:, 0], P.pv, 'to-nonmodular', 'pv series', rtol=1e-12)
    ctx.check(n.horizon == horizon, 'to-nonmodular', lambda: f'horizon {n.horizon} != {horizon}')
    p = n.get_parameters()
    ok(p['cost_loss_load'].values[0], P.llc, 'cost_loss_load')
    ok(p['cost_overgeneration'].values[0], P.ogc, 'cost_overgeneration')
    if P.battery:
        b, q = n.battery, P.battery
        for x, y, w in ((b.capacity, q['capacity'], 'capacity'), (b.soc, q['soc'], 'soc'), (b.soc_min, q['soc_min'], 'soc_min'),
                        (b.soc_max, q['soc_max'], 'soc_max'), (b.p_charge_max, q['charge'], 'charge'), (b.p_discharge_max, q['discharge'], 'discharge'),
                        (b.efficiency, q['eff'], 'efficiency'), (b.cost_cycle, q['cost'], 'cost_cycle')):
            ok(x, y, f'battery {w}')
    if P.genset:
        g, q = n.genset, P.genset
        for x, y, w in ((g.rated_power * g.p_min, q['min'], 'min'), (g.rated_power * g.p_max, q['max'], 'max'), (g.fuel_cost, q['fuel'], 'fuel cost'),
                        (g.co2, q['co2'], 'co2')):
            ok(x, y, f'genset {w}')
    if P.grid:
        ok(n.grid.power_import, P.grid['imp'], 'import limit')
        ok(n.grid.power_export, P.grid['exp'], 'export limit')
        f = n.horizon
        n.horizon = P.T
        fc = n.forecast_all()
        n.horizon = f
        for key, j in (('grid_import', 0), ('grid_export', 1), ('grid_co2', 2), ('grid_status', 3)):
            ctx.arr_close(fc[key], P.grid['ts'][:, j], 'to-nonmodular', f'series {key}', rtol=1e-12)
    if P.grid or P.genset:
        ok(p['cost_co2'].values[0], P.co2cost, 'cost_co2')
    # the state it starts in is the one of the first row; energies may be rounded to a decimal
    start = {k: v[-1] for k, v in n._df_record_state.items()}
    expect = dict(load=P.load[0], pv=P.pv[0])
    if P.battery:
        q = P.battery
        expect.update(battery_soc=q['soc'], capa_to_charge=(q['soc_max'] - q['soc']) * q['capacity'] / q['eff'],
                      capa_to_discharge=(q['soc'] - q['soc_min']) * q['capacity'] * q['eff'])
        for k in ('capa_to_charge', 'capa_to_discharge'):
            ctx.check(abs(getattr(n.battery, k) - expect[k]) <= .0501 + 1e-9 * P.scale, 'to-nonmodular', lambda: f'battery.{k} is {getattr(n.battery, k)}, not {expect[k]}')
    if P.grid:
        expect.update(zip(('grid_price_import', 'grid_price_export', 'grid_co2', 'grid_status'), P.grid['ts'][0]))
    for k, v in expect.items():
        tol = .0501 if k in ('load', 'pv', 'capa_to_charge', 'capa_to_discharge') else 0.0
        ctx.check(k in start and abs(start[k] - v) <= tol + 1e-9 * P.scale, 'to-nonmodular', lambda: f'starts with {k} {start.get(k)}, not {v}')
        ctx.count('started')


def check_modular(ctx, m, P, horizon):
    ok = lambda a, b, what: (ctx.close(float(a), float(b), 'to-modular', what, rtol=1e-12), ctx.count('attributes'))
    names = {'load', 'unbalanced_energy', 'PV'} | {k for k in ('battery', 'genset', 'grid') if getattr(P, k)}
    ctx.check(set(m.modules.names()) == names and len(m.modules) == len(names), 'to-modular', lambda: f'modules {m.modules.names()}')
    mod = {k: m.modules[k][0] for k in names}
    ctx.arr_close(np.abs(mod['load'].time_series[:, 0]), P.load, 'to-modular', 'load series', rtol=1e-12)
    ctx.arr_close(mod['PV'].time_series[:, 0], P.pv, 'to-modular', 'pv series', rtol=1e-12)
    ok(mod['unbalanced_energy'].loss_load_cost, P.llc, 'loss load cost')
    ok(mod['unbalanced_energy'].overgeneration_cost, P.ogc, 'overgeneration cost')
    for k in ('load', 'PV', 'grid'):
        if k in mod:
            ctx.check(mod[k].forecast_horizon == horizon - 1, 'to-modular', lambda: f'{k} forecasts {mod[k].forecast_horizon} steps')
            cols = dict(load=[-P.load], PV=[P.pv], grid=list(P.grid['ts'].T) if P.grid else None)[k]
            fc = mod[k].forecast()
            for j in range(min(horizon - 1, P.T - 1)):
                ctx.arr_close(fc[j], [c[j + 1] for c in cols], 'to-modular', f'{k} forecast {j}', rtol=1e-12)
    if P.battery:
        b, q = mod['battery'], P.battery
        for x, y, w in ((b.max_capacity, q['capacity'], 'capacity'), (b.soc, q['soc'], 'soc'), (b.min_capacity, q['soc_min'] * q['capacity'], 'min capacity'),
                        (b.max_charge, q['charge'], 'charge'), (b.max_discharge, q['discharge'], 'discharge'), (b.efficiency, q['eff'], 'efficiency'),
                        (b.battery_cost_cycle, q['cost'], 'cost_cycle')):
            ok(x, y, f'battery {w}')
    if P.genset:
        g, q = mod['genset'], P.genset
        for x, y, w in ((g.running_min_production, q['min'], 'min'), (g.running_max_production, q['max'], 'max'), (g.get_cost(1.0), q['fuel'] + q['co2'] * P.co2cost, 'cost'),
                        (g.co2_per_unit, q['co2'], 'co2'), (g.start_up_time, 0, 'start-up'), (g.wind_down_time, 0, 'wind-down')):
            ok(x, y, f'genset {w}')
    if P.grid:
        g = mod['grid']
        ok(g.max_import, P.grid['imp'], 'import limit')
        ok(g.max_export, P.grid['exp'], 'export limit')
        ok(g.cost_per_unit_co2, P.co2cost, 'cost of co2')
        ctx.arr_close(g.time_series, P.grid['ts'], 'to-modular', 'grid series', rtol=1e-12)


def action(cmd, names, P):
    out = {}
    if P.battery:
        out[names['battery']] = [cmd['battery_discharge'] - cmd['battery_charge']]
    if P.grid:
        out[names['grid']] = [cmd['grid_import'] - cmd['grid_export']]
    if P.genset:
        out[names['genset']] = [np.array([1.0 if cmd['genset'] > 0 else 0.0, cmd['genset']])]
    return out


def paired(ctx, rng, n, ms, P, horizon, n_max, dispatch):
    """Drive the non-modular n and the modular ms (each with the names of its modules)."""
    S = P.scale
    soc = P.battery['soc'] if P.battery else None
    tol, ct = 1e-9 * S, max(1.0, P.llc, P.ogc)
    for t in range(min(P.T, n_max)):
        if len(dispatch) <= t:
            dispatch.append(P.command(rng, t, soc, 'feasible'))
        cmd = dispatch[t]
        ctx.event('step', t, cmd)
        state = n.run(dict(cmd))
        if P.battery:
            soc = state['battery_soc']
        act = {k: v[-1] for k, v in n._df_record_actual_production.items()}
        cost = {k: v[-1] for k, v in n._df_record_cost.items()}
        done_n = bool(n.done)
        for m, names in ms:
            _, reward, done, info = m.run(action(cmd, names, P), normalized=False)
            i = {k: info[v][0] for k, v in names.items() if v in info}
            bal = i['balancing']
            met = abs(act['pv_consummed'] - i['renewable']['provided_energy']) <= 1e-3 + tol
            pairs = [('pv_consummed', i['renewable']['provided_energy']), ('pv_curtailed', i['renewable']['curtailment']),
                     ('loss_load', bal.get('provided_energy', 0.0)), ('overgeneration', bal.get('absorbed_energy', 0.0))]
            for k, v in pairs:
                ctx.check(abs(act[k] - v) <= 1e-3 + tol and met, 'paired-balance', lambda: f't={t} {k}: {act[k]} non-modular, {v} modular, command {cmd}')
            pairs = []
            if P.battery:
                pairs += [('battery_charge', i['battery'].get('absorbed_energy', 0.0)), ('battery_discharge', i['battery'].get('provided_energy', 0.0))]
                ctx.close(m.modules[names['battery']][0].soc, soc, 'paired-soc', f't={t} soc', rtol=1e-9)
            if P.grid:
                pairs += [('grid_import', i['grid'].get('provided_energy', 0.0)), ('grid_export', i['grid'].get('absorbed_energy', 0.0))]
            if P.genset:
                pairs += [('genset', i['genset']['provided_energy'])]
            for k, v in pairs:
                ctx.check(abs(act[k] - v) <= tol, 'paired-flow', lambda: f't={t} {k}: {act[k]} non-modular, {v} modular, command {cmd}')
            co2 = sum(i[k].get('co2_production', 0.0) for k in ('grid', 'genset') if k in i)
            ctx.close(co2, n.get_co2(), 'paired-co2', f't={t}', scale=S)
            b_cost = -m.modules[names['battery']][0].log_dict()['reward'][-1] if P.battery else 0.0
            total, b_total = cost['total_cost'], cost.get('battery', 0.0)
            ctx.check(abs((-reward - b_cost) - (total - b_total)) <= ct * (2e-3 + 10 * tol), 'paired-cost',
                      lambda: f't={t} cost without battery: {total - b_total} non-modular, {-reward - b_cost} modular, command {cmd}, {cost}')
            if P.battery and P.battery['eff'] == 1.0:
                ctx.check(abs(b_cost - b_total) <= 10 * tol, 'paired-cost', lambda: f't={t} battery cost {b_total} non-modular, {b_cost} modular')
            if t == P.T - 1:
                ctx.check(bool(done), 'paired-done', lambda: f'modular microgrid not done after the last row {t}')
            ctx.count('steps')
        ctx.seen(bool(P.battery), bool(P.grid), bool(P.genset), tuple(k for k, v in sorted(act.items()) if v > 0))
        if done_n:
            break
        if P.battery and rng.integers(12) == 0:
            # converting in the middle of an episode
            ctx.close(n.to_modular().modules['battery'][0].soc, soc, 'converted-midway', f'state of charge after t={t}', rtol=1e-9)
            ctx.count('midway')
    ctx.count('pairs', len(ms))


def run_case(ctx, rng, index):
    if index % 10 == 0:
        ctx.count('generated')
        n = MicrogridGenerator(nb_microgrid=1, random_seed=int(rng.integers(1 << 30))).generate_microgrid(modular=False).microgrids[0]
        if rng.integers(2):
            # the same kind of microgrid on other data, e.g. outages of a grid that is not marked weak
            ctx.count('other_data')
            for name in ('_load_ts', '_pv_ts', '_grid_price_import', '_grid_price_export', '_grid_co2') if n.architecture['grid'] else ('_load_ts', '_pv_ts'):
                if rng.integers(3):
                    ts = getattr(n, name)
                    ts.iloc[:, 0] = ts.to_numpy()[:, 0] * rng.uniform(.5, 1.5, len(ts))
            if n.architecture['grid']:
                ts = n._grid_status_ts
                ts.iloc[:, 0] = (rng.random(len(ts)) > rng.choice([0.0, .1, .6])).astype(float)
            n.reset()
        P = nonmod.Params.read(n)
        horizon = n.horizon
        ctx.describe(dict(generated=dict(n.architecture)))
        ms = [(n.to_modular(), CONVERTED)]
        if rng.integers(2):
            ms.append((Microgrid.from_nonmodular(n), CONVERTED))
    else:
        spec = nonmod.spec(rng)
        rng.shuffle(spec['modules'])
        ctx.describe(spec)
        m = gen.build(spec)
        names = {k: next((x['name'] for x in spec['modules'] if x['kind'] == k and x['name']), d) for k, d in DEFAULT.items()}
        P = nonmod.Params(spec)
        horizon = spec['horizon'] + 1
        late = False
        if rng.integers(4) == 0 and spec['T'] > 4:
            # convert a microgrid that has run: it continues with its state of charge from the first row
            ctx.count('stepped')
            for _ in range(3 if rng.integers(3) else spec['T']):
                m.run(m.sample_action())
            if P.battery:
                P.battery['soc'] = m.modules[names['battery']][0].soc
            if rng.integers(2):
                m.reset()
            else:
                ctx.count('midway_from_modular')
                late = True
        before = repr(m.state_dict()), repr(m.log.to_dict('list'))
        rs = repr(np.random.get_state())
        n = m.to_nonmodular() if rng.integers(2) else NonModularMicrogrid.from_modular(m)
        ctx.check((repr(m.state_dict()), repr(m.log.to_dict('list'))) == before, 'converting-changes', 'conversion changed the microgrid')
        ctx.check(repr(np.random.get_state()) == rs, 'converting-random', 'conversion changed the global random generator')
        check_nonmodular(ctx, n, P, horizon)
        if late:
            m.reset()
        ms = [(m, names), (n.to_modular(), CONVERTED)]
    check_modular(ctx, ms[-1][0], P, horizon)
    if rng.integers(3) == 0 and (P.battery or P.grid or P.genset):
        cls = DiscreteMicrogridEnv if rng.integers(2) else ContinuousMicrogridEnv
        env = cls.from_nonmodular(n) if rng.integers(2) else cls.from_microgrid(n)
        check_modular(ctx, env, P, horizon)
        ms.append((_Raw(env), CONVERTED))
    dispatch = []
    paired(ctx, rng, n, ms, P, horizon, 200 if ctx.thorough else 30, dispatch)
    # once more after a reset: non-modular batteries return to their initial state of charge, modular ones keep theirs
    n.reset()
    for m, nm in ms:
        m.reset()
        if P.battery:
            m.modules[nm['battery']][0].soc = P.battery['soc']
    paired(ctx, rng, n, ms, P, horizon, 6, dispatch)
    rejections(ctx, rng)


class _Raw:
    """run() of an environment's microgrid."""

    def __init__(self, env):
        self.env, self.modules = env, env.modules

    def run(self, action, normalized):
        return Microgrid.run(self.env, action, normalized=normalized)

    def reset(self):
        return Microgrid.reset(self.env)


def rejections(ctx, rng):
    spec = nonmod.spec(rng, T=6)
    k = rng.integers(3)
    if k == 0:
        d = copy.deepcopy(spec['modules'][int(rng.integers(len(spec['modules'])))])
        if d['kind'] == 'balancing':
            return
        d['name'] = None if rng.integers(2) else 'second_' + d['kind']
        spec['modules'].append(d)
    elif k == 1:
        spec['modules'] = [m for m in spec['modules'] if m['kind'] != 'load']
    else:
        from pymgrid.modules.base import BaseMicrogridModule
        mods = gen.module_list(spec) + [('special', _special(BaseMicrogridModule))]
        mg = Microgrid(mods, add_unbalanced_module=spec['unbalanced'] == 'default')
        ctx.raises((TypeError, ValueError, KeyError), mg.to_nonmodular, 'representable', 'unknown module type')
        ctx.count('rejected')
        return
    mg = gen.build(spec)
    ctx.raises((ValueError, TypeError), mg.to_nonmodular, 'representable', lambda: f'modules {[m["kind"] for m in spec["modules"]]}')
    ctx.count('rejected')


def _special(base):
    class SpecialModule(base):
        module_type = ('special', 'controllable')
        yaml_tag = u'!SpecialModule'
        min_obs = max_obs = np.array([])
        min_act = max_act = 0.0
        is_source = property(lambda self: True)
        max_production = property(lambda self: 0.0)

        def update(self, external_energy_change, as_source=False, as_sink=False):
            return 0.0, False, {'provided_energy': 0.0}

        def _state_dict(self):
            return {}
    return SpecialModule(raise_errors=False)
