"""C19 the non-modular simulator: a trace monitor over its records."""
import contextlib
import io

import numpy as np

from pymgrid.MicrogridGenerator import MicrogridGenerator

from .. import gen, nonmod

RULE = ('One case is one non-modular microgrid (converted from a random modular one, or generated), driven by feasible, out-of-range, '
        'negative and contradictory commands to the end of its data and over resets and a training/testing split; every record is checked '
        'against a reference simulator. A situation is (components, which commands were clipped, sign of the imbalance).')
CASES = dict(quick=1600, thorough=30000)
MIN = dict(steps=8000, clipped=3000, loss=500, over=500, curtailed=500, met=150, episodes=500, resets=300, split=60, again=30, forecasts=3000, penalties=1000, co2_cost_changed=200)
ASSUMPTIONS = ['a net demand within 1e-3 units of the available renewable energy counts as met exactly']


def monitor(ctx, rng, mg, P, horizon, n_max, soc0):
    """Drive mg from the first row of P; check every record."""
    S = P.scale
    soc = soc0
    steps = 0
    R = lambda rec, key: rec[key][-1]
    for t in range(min(P.T, n_max)):
        ctx.close(mg.load, P.load[t], 'row', f'load at {t}')
        ctx.close(mg.pv, P.pv[t], 'row', f'pv at {t}')
        if P.grid:
            ctx.check((mg.grid.price_import, mg.grid.price_export, mg.grid.co2, mg.grid.status) == tuple(P.grid['ts'][t]), 'row',
                      lambda: f'grid at {t}: {(mg.grid.price_import, mg.grid.price_export, mg.grid.co2, mg.grid.status)} != {P.grid["ts"][t]}')
        if P.battery:
            ctx.close(mg.battery.soc, soc, 'battery-soc', f'before step {t}')
        if rng.integers(3) == 0:
            fc = mg.forecast_all()
            cols = dict(load=P.load, pv=P.pv)
            if P.grid:
                cols.update(zip(('grid_import', 'grid_export', 'grid_co2', 'grid_status'), P.grid['ts'].T))
            ctx.check(set(fc) == set(cols), 'forecast', lambda: f'forecasts of {sorted(fc)}, expected {sorted(cols)}')
            for k, v in cols.items():
                ctx.check(np.array_equal(np.asarray(fc[k], dtype=float), v[t:t + horizon]), 'forecast',
                          lambda: f'forecast of {k} at row {t}: {fc[k]}, next rows {v[t:t + horizon]}')
            one = dict(load=mg.forecast_load(), pv=mg.forecast_pv())
            if P.grid:
                one['grid_import'], one['grid_export'] = mg.forecast_grid_prices()
                one['grid_co2'], one['grid_status'] = mg.forecast_grid_co2(), mg.forecast_grid_status()
            for k, v in one.items():
                ctx.check(np.array_equal(np.asarray(v, dtype=float), cols[k][t:t + horizon]), 'forecast', lambda: f'single forecast of {k} at row {t}: {v}')
            ctx.count('forecasts')
        cmd = P.command(rng, t, soc, str(rng.choice(['feasible', 'exclusive', 'any'])))
        if rng.integers(4) == 0:  # what is consumed of the renewable energy follows from the rest: these do not matter
            cmd['pv_consummed'], cmd['pv_curtailed'] = float(rng.uniform(0, P.pv[t] + 1)), float(rng.uniform(0, P.pv[t] + 1))
        ctx.event('run', t, dict(cmd))
        state = mg.run(dict(cmd))
        steps += 1
        ctx.count('steps')
        exp, co2, cost, soc_exp = P.expect(t, soc, cmd)
        act = mg._df_record_actual_production
        got = {k: R(act, k) for k in act}
        for k in act:
            ctx.check(len(act[k]) == steps, 'records', lambda: f'{k}: {len(act[k])} records after {steps} steps')
        for k in ('battery_charge', 'battery_discharge', 'grid_import', 'grid_export', 'genset'):
            if k in exp:
                ctx.close(got[k], exp[k], 'flow', f't={t} {k} for command {cmd[k]}', scale=S)
                ctx.count('clipped', int(abs(exp[k] - cmd[k]) > 1e-9 * S))
            else:
                ctx.check(k not in got, 'flow', f'{k} recorded without such a component')
        for k in ('pv_consummed', 'pv_curtailed', 'loss_load', 'overgeneration'):
            tol = 1e-3 + 1e-9 * S if abs(exp['need'] - P.pv[t]) < 1e-3 + 1e-9 * S else 1e-9 * S
            ctx.check(abs(got[k] - exp[k]) <= tol and got[k] >= 0, 'balance', lambda: f't={t} {k}: {got[k]} != {exp[k]} (net demand {exp["need"]}, pv {P.pv[t]})')
        src = sum(got.get(k, 0) for k in ('battery_discharge', 'grid_import', 'genset', 'pv_consummed', 'loss_load'))
        snk = P.load[t] + sum(got.get(k, 0) for k in ('battery_charge', 'grid_export', 'overgeneration'))
        ctx.check(abs(src - snk) <= 1e-3 + 1e-9 * S, 'balance', lambda: f't={t}: {src} supplied, {snk} consumed')
        ctx.check(abs(got['pv_consummed'] + got['pv_curtailed'] - P.pv[t]) <= 1e-9 * S, 'balance', lambda: f't={t} pv {got} of {P.pv[t]}')
        if got['loss_load'] > 0:
            ctx.count('loss')
        elif got['overgeneration'] > 0:
            ctx.count('over')
        elif got['pv_curtailed'] > 0:
            ctx.count('curtailed')
        else:
            ctx.count('met')
        coef = float(rng.choice([1.0, 0.5, 3.0]))
        recd = mg._df_record_control_dict
        wanted = {k: R(recd, k) for k in recd}
        for k in ('battery_charge', 'battery_discharge', 'grid_import', 'grid_export', 'genset', 'pv_consummed', 'pv_curtailed'):
            if k in cmd:
                ctx.close(wanted[k], cmd[k], 'command-record', f't={t} recorded command of {k}', scale=S)
        off = sum(abs(cmd.get(k, 0) - v) for k, v in got.items() if k in wanted)
        ctx.close(mg.penalty(coef=coef), coef * off, 'penalty', f't={t} penalty', scale=S)
        ctx.count('penalties')
        now = mg.get_updated_values()
        ctx.check(all(now[k] == v or (v != v and now[k] != now[k]) for k, v in state.items()), 'updated-values', lambda: f't={t} {now} != {state}')
        # costs
        cost['loss_load'], cost['overgeneration'] = got['loss_load'] * P.llc, got['overgeneration'] * P.ogc
        rec = mg._df_record_cost
        cs = S * max(1.0, P.llc, P.ogc, P.co2cost, 5.0)
        for k, v in cost.items():
            ctx.close(R(rec, k), v, 'cost', f't={t} cost of {k}', scale=cs)
        ctx.check(set(rec) == set(cost) | {'total_cost'}, 'cost', lambda: f'{sorted(rec)} != {sorted(cost)}')
        ctx.close(R(rec, 'total_cost'), sum(cost.values()), 'cost', f't={t} total cost', scale=cs)
        ctx.close(mg.get_cost(), sum(cost.values()), 'cost', f't={t} get_cost', scale=cs)
        ctx.close(mg.get_co2(), co2, 'co2', f't={t}', scale=S * 3)
        ctx.check(len(rec['total_cost']) == steps and len(mg._df_record_co2['co2']) == steps, 'records', 'cost records')
        # state
        if P.battery:
            ctx.close(state['battery_soc'], soc_exp, 'soc', f't={t} soc', rtol=1e-11)
            soc = state['battery_soc']
            ctx.check(P.battery['soc_min'] - 1e-9 <= soc <= P.battery['soc_max'] + 1e-9, 'soc-limits', lambda: f't={t} soc {soc}')
        if t + 1 < P.T:
            ctx.close(state['load'], P.load[t + 1], 'next', f'load after {t}')
            ctx.close(state['pv'], P.pv[t + 1], 'next', f'pv after {t}')
            if P.grid:
                nxt = P.grid['ts'][t + 1]
                ctx.check((state['grid_price_import'], state['grid_price_export'], state['grid_co2'], state['grid_status']) == tuple(nxt), 'next',
                          lambda: f'grid after {t}: {state} != {nxt}')
        done = t == P.T - 1 or t == P.T - horizon
        ctx.check(bool(mg.done) == done, 'done', lambda: f'done={mg.done} after row {t} of {P.T}, horizon {horizon}')
        ctx.seen(bool(P.battery), bool(P.grid), bool(P.genset), tuple(k for k in cmd if abs(exp[k] - cmd[k]) > 1e-9 * S), np.sign(got['loss_load'] - got['overgeneration']))
        if done:
            ctx.count('episodes')
            break
    return soc


def run_case(ctx, rng, index):
    with contextlib.redirect_stdout(io.StringIO()):  # it prints what it clips
        case(ctx, rng, index)


def case(ctx, rng, index):
    if index % 8 == 0:
        mgen = MicrogridGenerator(nb_microgrid=1, random_seed=int(rng.integers(1 << 30))).generate_microgrid(modular=False)
        mg = mgen.microgrids[0]
        P = nonmod.Params.read(mg)
        horizon = mg.horizon
        ctx.describe(dict(generated=True, architecture=dict(mg.architecture)))
    else:
        spec = nonmod.spec(rng)
        ctx.describe(spec)
        mg = gen.build(spec).to_nonmodular()
        P = nonmod.Params(spec)
        horizon = spec['horizon'] + 1
    soc0 = P.battery['soc'] if P.battery else None
    n = 120 if ctx.thorough else 40
    if rng.integers(3) == 0:
        P.co2cost = float(rng.choice([0.0, .05, 2.5]))
        mg.set_cost_co2(P.co2cost)
        ctx.count('co2_cost_changed')
    monitor(ctx, rng, mg, P, horizon, n, soc0)
    for k in range(int(rng.integers(1, 3))):
        mg.reset()
        ctx.count('resets')
        for name in ('_df_record_actual_production', '_df_record_cost', '_df_record_co2', '_df_record_control_dict'):
            ctx.check(all(len(v) == 0 for v in getattr(mg, name).values()), 'reset-records', lambda: f'{name} not empty after reset')
        ctx.check(not mg.done, 'reset-done', 'done after reset')
        monitor(ctx, rng, mg, P, horizon, n if k == 0 else 5, soc0)
    if P.T >= 6 and rng.integers(2):
        split = 0
        for size in rng.permutation([.67, .5, .3, .9])[:2]:
            lim = int(np.ceil(P.T * size))
            if lim < 2 or P.T - lim < 2:
                continue
            mg.train_test_split(train_size=float(size))
            ctx.count('split')
            ctx.count('again', split)
            split = 1
            parts = mg.get_training_testing_data()
            ctx.check(parts[0] == lim, 'split-data', lambda: f'split at {parts[0]}, expected {lim}')
            for got, want in zip(parts[1:], (P.load[:lim], P.pv[:lim], P.load[lim:], P.pv[lim:])):
                ctx.check(np.allclose(np.asarray(got, dtype=float).flatten(), want, rtol=1e-12, atol=0), 'split-data', lambda: f'{got} != {want}')
            for testing in (False, True, False):
                mg.reset(testing=testing)
                monitor(ctx, rng, mg, P.rows(lim, P.T) if testing else P.rows(0, lim), horizon, n, soc0)
            mg.train_test_split(cancel=True)
            monitor(ctx, rng, mg, P, horizon, n, soc0)
