"""C17 model predictive control: an offline checker of its log against an independent optimiser."""
import contextlib
import io
import warnings

import numpy as np

from pymgrid.algos import ModelPredictiveControl

from .. import gen, nonmod
from ..monitors import ENERGY_NAMES
from ..plan import optimum
from ..ref import Ref

RULE = ('One case runs model predictive control on a random microgrid (twice, from different states of charge); each logged step is compared '
        'with an independent optimiser given the same forecasts and state. A situation is (components, horizon, signs of the flows).')
CASES = dict(quick=400, thorough=6000)
CHUNK = 2
MIN = dict(steps=1200, compared=1200, discriminating=300, imports=100, exports=40, genset=60, charged=60, discharged=60, outage=20, rejected=40)
ASSUMPTIONS = ['solvers agree to 1e-5 of the cost of the largest flow over the horizon']


def model(ref, P, t, soc):
    """The planning problem at time t, as the forecasts give it."""
    by = {r.kind: r for r in ref.all}

    def horizon(r):
        f = r.forecast(t)
        return np.vstack([r.value(t)] + ([f] if f is not None else []))
    load, pv = np.abs(horizon(by['load'])[:, 0]), np.abs(horizon(by['renewable'])[:, 0])
    b = dict(P.battery)
    b['charge'], b['discharge'] = b['charge'] / b['eff'], b['discharge'] * b['eff']
    kw = dict(load=load, pv=pv, soc=soc, battery=b, llc=P.llc)
    if P.grid:
        g = horizon(by['grid'])
        status = g[:, 3] if g.shape[1] > 3 else np.ones(len(g))
        kw['grid'] = dict(imp=P.grid['imp'], exp=P.grid['exp'], price_import=g[:, 0] + g[:, 2] * by['grid'].m['co2cost'], price_export=g[:, 1], status=status)
    if P.genset:
        m = by['genset'].m
        kw['genset'] = dict(min=m['min'], max=m['max'], cost=m['cost'] + m['co2'] * m['co2cost'])
    return kw


def check_log(ctx, ref, P, log, lo):
    by = {r.kind: r for r in ref.all}
    S = P.scale
    col = lambda row, kind, k: row[(by[kind].name, by[kind].num, ENERGY_NAMES[kind][k])]
    for k in range(len(log)):
        t, row = lo + k, log.iloc[k]
        soc = row[(by['battery'].name, by['battery'].num, 'soc')]
        kw = model(ref, P, t, soc)
        first = dict(battery=col(row, 'battery', 0) - col(row, 'battery', 1))
        if P.grid:
            first['grid'] = col(row, 'grid', 0) - col(row, 'grid', 1)
        if P.genset:
            first['genset'] = col(row, 'genset', 0)
        best, alone = optimum(**kw), optimum(**kw, exclusive=True)
        ctx.count('steps')
        ctx.check(best is not None, 'oracle', lambda: f't={t}: planning problem infeasible {kw}')
        price = max([1e-3, P.llc, kw['battery']['cost']] + ([float(np.abs(kw['grid']['price_import']).max()), float(np.abs(kw['grid']['price_export']).max())] if P.grid else []) +
                    ([kw['genset']['cost']] if P.genset else []))
        tol = 1e-5 * S * price * max(1.0, np.sqrt(len(kw['load'])))
        if alone is None or alone > best + 1e-2 * tol:
            ctx.count('relaxed')  # a plan that charges and discharges, or imports and exports, at once is cheaper
            continue
        got = None
        for slack in (1e-6, 3e-6, 1e-5):
            got = optimum(**kw, first=first, slack=slack * S)
            if got is not None:
                break
        ctx.check(got is not None, 'mpc-feasible', lambda: f't={t}: no plan starts with {first} (state of charge {soc}, problem {kw})')
        ctx.check(got <= best + tol, 'mpc-optimal', lambda: f't={t}: playing {first} costs {got} over the horizon, {best} is possible (state of charge {soc}, problem {kw})')
        ctx.count('compared')
        # doing nothing would have cost more: the comparison tells something
        idle = optimum(**kw, first={n: 0.0 for n in first})
        ctx.count('discriminating', int(idle is None or idle > best + 10 * tol))
        ctx.count('imports', int(first.get('grid', 0) > 1e-6 * S))
        ctx.count('exports', int(first.get('grid', 0) < -1e-6 * S))
        ctx.count('genset', int(first.get('genset', 0) > 1e-6 * S))
        ctx.count('charged', int(first['battery'] < -1e-6 * S))
        ctx.count('discharged', int(first['battery'] > 1e-6 * S))
        ctx.count('outage', int(bool(P.grid) and kw['grid']['status'][0] == 0))
        ctx.seen(bool(P.grid), bool(P.genset), len(kw['load']), tuple(int(np.sign(round(v / S, 6))) for v in first.values()))


def run_case(ctx, rng, index):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        case(ctx, rng, index)


def case(ctx, rng, index):
    h = int(rng.choice([0, 1, 2, 5, 11, 23], p=[.15, .2, .2, .2, .15, .1]))
    T = int(rng.choice([5, 8, 12, 26]))
    kinds = ['load', 'renewable', 'battery'] + [['grid'], ['genset'], ['grid', 'genset'], ['grid', 'genset'], ['grid'], []][index % 6]
    if 'genset' in kinds:  # the mixed-integer solver of the code takes very long on long horizons
        h = min(h, int(rng.integers(1, 5)))
    f = str(rng.choice(['oracle', 'oracle', 'oracle', 'half', 'double', 'blend']))
    spec = gen.spec(rng, T=T, scale=float(rng.choice([10.0, 200.0, 5e3])), raise_errors=False, custom=False, window=False, times=False,
                    callable_cost=False, need=tuple(kinds), kinds=kinds, max_each=1, forecasts=False, noise=False,
                    fc_common=dict(f=f, h=h, iu=False, rel=False) if h else None)
    for m in spec['modules']:
        if m['kind'] == 'genset' and m['max'] == 0:
            m['max'] = 1.0
        if m['kind'] == 'battery':
            m['cost'] = max(m['cost'], 1e-2)  # free cycling makes charging and discharging at once as good as curtailing
        if m['kind'] == 'grid' and rng.integers(4):
            for row in m['ts']:
                row[1] = min(row[1], row[0])
    if spec['llc'] == 0:
        spec['llc'] = 5.0
    lo, hi = 0, T
    if rng.integers(3) == 0:
        lo = int(rng.integers(0, T - 2))
        hi = int(rng.integers(lo + 1, T + 1))
        spec['window'] = [lo, hi]
    ctx.describe(spec)
    P = nonmod.Params(spec)
    ref = Ref(spec)
    m = gen.build(spec)
    for _ in range(int(rng.integers(0, 3))):
        if m.current_step < hi - 1:
            m.run(m.sample_action())
    mpc = ModelPredictiveControl(m)
    for k in range(2):
        n = None if rng.integers(2) else int(rng.integers(1, hi - lo + 1))
        log = mpc.run(max_steps=n) if n is not None else mpc.run()
        want = hi - lo if n is None else n
        ctx.check(len(log) == want and list(log.index) == list(range(lo, lo + want)), 'mpc-length', lambda: f'{list(log.index)} logged, window {(lo, hi)}, asked {n}')
        ctx.check(log.equals(m.get_log()), 'mpc-log', 'returned log is not that of the microgrid')
        check_log(ctx, ref, P, log, lo)
    rejected(ctx, rng)


def rejected(ctx, rng):
    spec = nonmod.spec(rng, T=6)
    mods = spec['modules']
    k = rng.integers(2)
    if k == 0:
        spec['modules'] = [m for m in mods if m['kind'] != 'battery']
    else:
        spec['modules'] = [m for m in mods if m['kind'] != 'load']

    def attempt():
        ModelPredictiveControl(gen.build(spec)).run(max_steps=1)
    ctx.raises(Exception, attempt, 'mpc-rejects', lambda: f'microgrid of {[m["kind"] for m in spec["modules"]]}')
    ctx.count('rejected')
