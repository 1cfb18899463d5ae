"""C27 controllers of non-modular microgrids: their records against an independent optimiser, a reference rule and a reference simulator."""
import contextlib
import io
import warnings

import numpy as np

from pymgrid.MicrogridGenerator import MicrogridGenerator
from pymgrid.algos import ModelPredictiveControl
from pymgrid.algos.Control import Benchmarks
from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl

from .. import gen, nonmod
from ..plan import optimum

RULE = ('One case runs model predictive, rule-based or sample-average control, directly or as benchmarks, on a non-modular microgrid (converted from a random '
        'modular one, or generated) and audits every recorded step. A situation is (controller, components, signs of the flows).')
CASES = dict(quick=240, thorough=3000)
CHUNK = 2
MIN = dict(steps=3000, mpc=800, mpc_compared=800, rbc=1500, saa=10, benchmarks=40, compared=20, genset_minimum=5, lost=50, generated=20)
ASSUMPTIONS = ['solvers agree to 1e-5 of the cost of the largest flow over the horizon']


def problem(P, t, soc, horizon):
    s = slice(t, t + horizon)
    kw = dict(load=P.load[s], pv=P.pv[s], soc=soc, battery=P.battery, llc=P.llc)
    if P.grid:
        g = P.grid['ts'][s]
        kw['grid'] = dict(imp=P.grid['imp'], exp=P.grid['exp'], price_import=g[:, 0] + g[:, 2] * P.co2cost, price_export=g[:, 1], status=g[:, 3])
    if P.genset:
        kw['genset'] = dict(min=P.genset['min'], max=P.genset['max'], cost=P.genset['fuel'] + P.genset['co2'] * P.co2cost)
    return kw


def rule(ctx, P, t, soc):
    """The commands of rule-based control."""
    b, load, pv = P.battery, P.load[t], P.pv[t]
    full = max((b['soc_max'] - soc) * b['capacity'], 0) / b['eff']
    avail = max((soc - b['soc_min']) * b['capacity'], 0) * b['eff']
    c = dict(battery_charge=0.0, battery_discharge=0.0, grid_import=0.0, grid_export=0.0, genset=0.0)
    order, grid = ['battery'], False
    if P.grid:
        grid = P.grid['ts'][t, 3] == 1
        first = not P.grid['ts'][t, 1] / b['eff'] ** 2 < P.grid['ts'][t, 0]
        if grid:
            order = ['grid', 'battery'] if first else ['battery', 'grid']
    least = 0.0
    if P.genset and not grid and load > pv + min(avail, b['discharge']):
        least = P.genset['min']
        ctx.count('genset_minimum', int(least > 0))
        if least > load:
            c['genset'] = least
            return c
    net = load - least - pv
    for k in order:
        if k == 'battery':
            if net > 0:
                c['battery_discharge'] = min(avail, b['discharge'], net)
            else:
                c['battery_charge'] = min(full, b['charge'], -net)
            net += c['battery_charge'] - c['battery_discharge']
        else:
            c['grid_import' if net > 0 else 'grid_export'] = abs(net)
            net = 0.0
    if P.genset and (net > 0 or least):
        c['genset'] = max(net, 0.0) + least
    return c


def audit(ctx, P, out, kind, horizon, n):
    """Check the records of a run of n steps."""
    S = P.scale
    act, prod, cost, status, co2 = (out[k] for k in ('action', 'production', 'cost', 'status', 'co2'))
    ctx.check(len(cost['total_cost']) == n and len(co2['co2']) == n and all(len(v) == n for v in prod.values()) and all(len(v) == n for v in cost.values()),
              'length', lambda: f'{kind}: {len(cost["total_cost"])} steps recorded instead of {n}')
    ctx.check(len(status['load']) == n + 1 and all(len(v) == n for v in act.values()), 'length', lambda: f'{kind}: {len(status["load"])} states, {n} steps')
    keys = [k for k in ('battery_charge', 'battery_discharge', 'grid_import', 'grid_export', 'genset') if k in act]
    soc = P.battery['soc']
    total = []
    for t in range(n):
        ctx.count('steps')
        cmd = {k: float(act[k][t]) for k in keys}
        if kind == 'rbc':
            want = rule(ctx, P, t, soc)
            for k in keys:
                ctx.close(cmd[k], want[k], 'rbc-command', f't={t} {k}, {want} expected', scale=S)
            used = float(act['pv_consummed'][t])
            ctx.close(used + float(act['pv_curtailed'][t]), P.pv[t], 'rbc-command', f't={t} renewable energy used and curtailed', scale=S)
            ctx.check(-1e-9 * S <= used <= P.pv[t] + 1e-9 * S, 'rbc-command', lambda: f't={t}: {used} of {P.pv[t]} used')
            ctx.count('rbc')
        elif kind == 'mpc':
            kw = problem(P, t, soc, horizon)
            first = dict(battery=cmd['battery_discharge'] - cmd['battery_charge'])
            if P.grid:
                first['grid'] = cmd['grid_import'] - cmd['grid_export']
            if P.genset:
                first['genset'] = cmd['genset']
            best, got = optimum(**kw), None
            for slack in (1e-6, 3e-6, 1e-5):
                got = optimum(**kw, first=first, slack=slack * S) if got is None else got
            price = max([1e-3, P.llc, P.battery['cost']] + ([float(np.abs(kw['grid']['price_import']).max()), float(np.abs(kw['grid']['price_export']).max())] if P.grid else []) +
                        ([kw['genset']['cost']] if P.genset else []))
            tol = 1e-5 * S * price * max(1.0, np.sqrt(horizon))
            ctx.check(best is not None, 'oracle', lambda: f'infeasible {kw}')
            ctx.check(got is not None, 'mpc-feasible', lambda: f't={t}: no plan starts with {cmd} (state of charge {soc}, problem {kw})')
            ctx.check(got <= best + tol, 'mpc-optimal', lambda: f't={t}: {cmd} costs {got} over the horizon, {best} is possible (state of charge {soc}, problem {kw})')
            ctx.check(all(v >= -1e-6 * S for v in cmd.values()), 'mpc-feasible', lambda: f't={t}: negative {cmd}')
            ctx.count('mpc')
            ctx.count('mpc_compared')
        else:
            ctx.count('saa')
            src = sum(cmd.get(k, 0) for k in ('battery_discharge', 'grid_import', 'genset')) + float(act['pv_consummed'][t])
            snk = P.load[t] + cmd['battery_charge'] + cmd.get('grid_export', 0)
            loss = float(snk - src)
            ctx.check(-1e-5 * S <= loss <= P.load[t] + 1e-5 * S, 'saa-balance', lambda: f't={t}: {cmd} leave {loss} of load {P.load[t]}')
            ctx.check(-1e-5 * S <= float(act['pv_consummed'][t]) <= P.pv[t] + 1e-5 * S, 'saa-balance', lambda: f't={t}: pv {act["pv_consummed"][t]} of {P.pv[t]}')
        exp, em, cst, nxt = P.expect(t, soc, cmd)
        near = abs(exp['need'] - P.pv[t]) < 1e-3 + 1e-9 * S
        for k in prod:
            ctx.check(abs(prod[k][t] - exp[k]) <= (1e-3 if near and k not in keys else 0) + 1e-9 * S, 'production',
                      lambda: f'{kind} t={t} {k}: {prod[k][t]} recorded, {exp[k]} expected for {cmd}')
        ctx.count('lost', int(prod['loss_load'][t] > 1e-3))
        cst['loss_load'], cst['overgeneration'] = prod['loss_load'][t] * P.llc, prod['overgeneration'][t] * P.ogc
        cs = S * max(1.0, P.llc, P.ogc, P.co2cost, 5.0)
        for k, v in cst.items():
            ctx.close(cost[k][t], v, 'cost', f'{kind} t={t} cost of {k}', scale=cs)
        ctx.close(cost['total_cost'][t], sum(cst.values()), 'cost', f'{kind} t={t} total cost', scale=cs)
        total.append(cost['total_cost'][t])
        ctx.close(co2['co2'][t], em, 'co2', f'{kind} t={t}', scale=3 * S)
        ctx.close(status['battery_soc'][t + 1], nxt, 'soc', f'{kind} soc after {t}', rtol=1e-10)
        soc = status['battery_soc'][t + 1]
        if t + 1 < P.T:
            ctx.close(status['load'][t + 1], P.load[t + 1], 'status', f'{kind} load after {t}')
            ctx.close(status['pv'][t + 1], P.pv[t + 1], 'status', f'{kind} pv after {t}')
            if P.grid:
                g = tuple(status[k][t + 1] for k in ('grid_price_import', 'grid_price_export', 'grid_co2', 'grid_status'))
                ctx.check(g == tuple(P.grid['ts'][t + 1]), 'status', lambda: f'{kind} grid after {t}: {g}')
        ctx.seen(kind, bool(P.grid), bool(P.genset), tuple(int(np.sign(round(v / S, 6))) for v in cmd.values()))
    return total


def run_case(ctx, rng, index):
    with contextlib.redirect_stdout(io.StringIO()) as out, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        case(ctx, rng, index, out)


def case(ctx, rng, index, stdout):
    if index % 10 == 0:
        mg = MicrogridGenerator(nb_microgrid=1, random_seed=int(rng.integers(1 << 30))).generate_microgrid(modular=False).microgrids[0]
        P = nonmod.Params.read(mg)
        horizon = mg.horizon
        ctx.describe(dict(generated=True, architecture=dict(mg.architecture)))
        ctx.count('generated')
        if index % 40 == 0:
            b = Benchmarks(mg)
            b.run_saa_benchmark(n_samples=2, forecast_steps=4, preset_to_use=int(rng.choice([50, 70, 85])))
            audit(ctx, P, b.saa_output, 'saa', horizon, 4)
        mg.reset()
        n = 200
        audit(ctx, P, NonModularRuleBasedControl(mg).run_rule_based(length=n + horizon), 'rbc', horizon, n)
        if not P.genset or rng.integers(2):
            if P.genset:  # the mixed-integer solver of the code takes very long on long horizons
                mg.horizon = horizon = 4
            mg.reset()
            audit(ctx, P, ModelPredictiveControl(mg).run(max_steps=8), 'mpc', horizon, 8)
        return
    h = int(rng.choice([0, 1, 2, 5, 11]))
    kinds = ['load', 'renewable', 'battery'] + [['grid'], ['genset'], ['grid', 'genset'], ['grid', 'genset'], ['grid'], []][index % 6]
    if 'genset' in kinds:
        h = min(h, int(rng.integers(1, 5)))
    spec = nonmod.spec(rng, horizon=h, kinds=kinds, T=int(rng.choice([6, 12, 30])))
    while {m['kind'] for m in spec['modules']} - {'balancing'} != set(kinds):
        spec = nonmod.spec(rng, horizon=h, kinds=kinds, T=int(rng.choice([6, 12, 30])))
    ctx.describe(spec)
    mg = gen.build(spec).to_nonmodular()
    P = nonmod.Params(spec)
    horizon = h + 1
    n = max(P.T - horizon, 0)
    if rng.integers(3):
        mpc = ModelPredictiveControl(mg)
        k = None if rng.integers(2) or n == 0 else int(rng.integers(1, n + 1))
        audit(ctx, P, mpc.run(max_steps=k) if k is not None else mpc.run(), 'mpc', horizon, n if k is None else k)
        if rng.integers(2):
            audit(ctx, P, mpc.run(), 'mpc', horizon, n)
        mg.reset()
        length = None if rng.integers(2) else int(rng.integers(1, P.T + 3))
        rbc = NonModularRuleBasedControl(mg)
        m = n if length is None else max(min(length, P.T) - horizon, 0)
        audit(ctx, P, rbc.run_rule_based() if length is None else rbc.run_rule_based(length=length), 'rbc', horizon, m)
    elif n:
        # as benchmarks, which report totals
        b = Benchmarks(mg)
        b.run_benchmarks('mpc')
        mg.reset()
        b.run_benchmarks('rbc')
        totals = {k: audit(ctx, P, b.outputs_dict[k], k, horizon, n) for k in ('mpc', 'rbc')}
        ctx.count('benchmarks')
        mpc, rbc = b.outputs_dict['mpc'], b.outputs_dict['rbc']
        for kind, o in (('mpc', mpc), ('rbc', rbc)):  # as a table, which must not change what is described below
            df = o.to_frame()
            rows = max(len(v) for d in o.values() for v in d.values())
            ctx.check(len(df) == n + 1 >= rows, 'table', lambda: f'{kind}: {len(df)} rows for {n} steps')
            for (k1, k2), col in df.items():
                v = np.array(o[k1][k2], dtype=float)
                ctx.check(np.array_equal(col.to_numpy(dtype=float)[:len(v)], v) and bool(col[len(v):].isna().all()), 'table', lambda: f'{kind}: {k1} {k2} {col.tolist()} of {v}')
        a_, b_ = sum(totals['mpc']), sum(totals['rbc'])
        if abs(a_ - b_) > 1e-9 * (abs(a_) + abs(b_)):
            ctx.check(((mpc < rbc), (mpc > rbc), (mpc == rbc)) == (a_ < b_, a_ > b_, False), 'compared', lambda: f'totals {a_} and {b_}, < {mpc < rbc}, > {mpc > rbc}, == {mpc == rbc}')
            ctx.count('compared')
        start = len(stdout.getvalue())
        split = rng.integers(3)
        if split == 0:
            b.describe_benchmarks()
            parts = {k: [sum(v)] for k, v in totals.items()}
        elif split == 1:
            ratio = float(rng.choice([.25, .5, .3, 1.0]))
            b.describe_benchmarks(test_split=True, test_ratio=ratio)
            i = int(np.ceil(n * (1 - ratio)))
            parts = {k: [sum(v[i:])] for k, v in totals.items()}
        else:
            i = int(rng.integers(0, n + 1))
            b.describe_benchmarks(test_split=True, test_index=i)
            parts = {k: [sum(v[i:]), sum(v[:i])] for k, v in totals.items()}
        text = stdout.getvalue()[start:]
        got = [float(l.rsplit(':', 1)[1]) for l in text.splitlines() if 'ost' in l and 'using' in l]
        want = [x for k in ('mpc', 'rbc') for x in parts[k]]
        ctx.check(len(got) == len(want) and all(abs(a - b_) <= .0051 + 1e-9 * abs(b_) for a, b_ in zip(got, want)), 'described',
                  lambda: f'{text!r} reports {got}, {want} recorded')
