"""C20 the microgrid generator."""
import contextlib
import glob
import os

import numpy as np

import pymgrid
from pymgrid.MicrogridGenerator import MicrogridGenerator

from .. import nonmod
from .c18 import check_modular

RULE = ('One case generates microgrids for one random seed, modular and not, twice (the second time with directories listed in another '
        'order and the global random state disturbed), compares both, checks every part against independently read data files and the '
        'documented sizing rules, and runs the modular ones; a situation is (architecture, weak grid, tariff, data files, battery duration).')
CASES = dict(quick=400, thorough=5000)
MIN = dict(generated=700, steps=6000, compared=300, weak=60, tariff_1=60, tariff_2=60, many=3, weak_with_outages=10)
ASSUMPTIONS = ['data files are those of the repository']
_DATA = {}


def data(kind):
    """Columns of the data files of a kind, read without pymgrid or pandas."""
    if kind not in _DATA:
        out = []
        for f in glob.glob(os.path.join(os.path.dirname(pymgrid.__file__), 'data', kind, '*.csv')):
            with open(f, encoding='utf-8-sig') as fh:
                lines = fh.read().split('\n')[1:]
            out.append((os.path.basename(f), np.array([float(x.split(',')[0]) for x in lines if x.strip()])))
        _DATA[kind] = out
    return _DATA[kind]


def match(ctx, series, kind, scaled, what):
    for name, d in data(kind):
        ref = d * (series.max() / d.max()) if scaled else d
        if len(ref) == len(series) and np.allclose(ref, series, rtol=1e-9, atol=1e-12):
            return name
    ctx.check(False, 'series', f'{what} is not one of the {kind} data files')


def tariff(k):
    h = np.arange(8760) % 24
    if k == 1:
        return np.where((h >= 12) & (h < 18), 0.59, np.where((h < 8) | (h >= 21), 0.22, 0.29))
    return np.where((h < 5) | ((h >= 14) & (h < 17)), 0.08, 0.11)


def check(ctx, mg):
    a, P = mg.architecture, nonmod.Params.read(mg)
    p = {k: v[0] for k, v in mg.get_parameters().to_dict('list').items()}
    is_int = lambda x: float(x) == int(x)
    ctx.check(a['PV'] == 1 and a['battery'] == 1 and (a['genset'] or a['grid']), 'architecture', lambda: f'{a}')
    ctx.check(P.T == 8760 and len(P.load) == 8760 and len(P.pv) == 8760, 'length', lambda: f'{len(P.load)}, {len(P.pv)}')
    ctx.check((P.load >= 0).all() and (P.pv >= 0).all() and np.isfinite(P.load).all() and np.isfinite(P.pv).all(), 'negative', 'negative series')
    peak = P.load.max()
    ctx.close(peak, p['load'], 'size-load', 'peak load')
    ctx.check(is_int(p['load']) and 100 <= p['load'] <= 100000, 'size-load', lambda: f'peak load {p["load"]}')
    files = match(ctx, P.load, 'load', True, 'load'), match(ctx, P.pv, 'pv', True, 'pv')
    pen = P.pv.max() / peak * 100
    ctx.check(abs(pen - round(pen)) < 1e-6 and 30 <= round(pen) <= 150, 'size-pv', lambda: f'pv penetration {pen} %')
    ctx.check((P.llc, P.ogc, P.co2cost) == (10, 1, 0.1), 'costs', lambda: f'{(P.llc, P.ogc, P.co2cost)}')
    b = P.battery
    caps = [np.ceil(d * P.load.mean() * (1 + e)) for d in (3, 4, 5) for e in (-1e-12, 0, 1e-12)]
    ctx.check(b['capacity'] in caps, 'size-battery', lambda: f'capacity {b["capacity"]} for a mean load of {P.load.mean()}')
    ctx.check(b['charge'] == b['discharge'] == np.ceil(b['capacity'] / 4), 'size-battery', lambda: f'{b}')
    ctx.check((b['soc_min'], b['soc_max'], b['eff'], b['cost']) == (0.2, 1, 0.9, 0.02), 'size-battery', lambda: f'{b}')
    ctx.check(b['soc_min'] <= b['soc'] <= b['soc_max'], 'initial-soc', lambda: f'{b["soc"]}')
    if a['genset']:
        g = P.genset
        rated = [np.ceil(peak / .9 * (1 + e)) for e in (-1e-12, 0, 1e-12)]
        ctx.check(p['genset_rated_power'] in rated, 'size-genset', lambda: f'{p["genset_rated_power"]} for a peak load of {peak}')
        ctx.check((p['genset_pmin'], p['genset_pmax'], g['fuel'], g['co2']) == (0.05, 0.9, 0.4, 2), 'size-genset', lambda: f'{g}')
        ctx.check(g['max'] >= peak * (1 - 1e-9), 'size-genset', lambda: f'{g} cannot cover the peak load {peak}')
    weak = k = None
    if a['grid']:
        g, ts = P.grid, P.grid['ts']
        ctx.check(g['imp'] == g['exp'] and g['imp'] in [int(2 * peak * (1 + e)) for e in (-1e-12, 0, 1e-12)], 'size-grid', lambda: f'{g["imp"]}, {g["exp"]} for a peak load of {peak}')
        ctx.check(ts.shape == (8760, 4), 'length', lambda: f'grid series {ts.shape}')
        ctx.check(np.isin(ts[:, 3], (0, 1)).all(), 'status', 'grid status not binary')
        weak = bool(p['grid_weak'])
        if not weak:
            ctx.check((ts[:, 3] == 1).all(), 'status', 'strong grid with outages')
        else:
            ctx.count('weak')
            ctx.check(bool(a['genset']), 'weak-needs-genset', 'weak grid without genset')
        if (ts[:, 3] == 0).any():
            ctx.check(bool(a['genset']), 'weak-needs-genset', 'outages without genset')
        k = 1 if np.array_equal(ts[:, 0], tariff(1)) else 2
        ctx.check(np.array_equal(ts[:, 0], tariff(k)), 'tariff', 'import price is neither tariff')
        ctx.count(f'tariff_{k}')
        ctx.check((ts[:, 1] == 0).all(), 'tariff', 'export price not zero')
        files += (match(ctx, ts[:, 2], 'co2', False, 'co2'),)
    ctx.count('generated')
    ctx.seen(tuple(sorted(a.items())), weak, k, files, caps.index(b['capacity']) // 3)
    return P


def same(ctx, x, y):
    """Two non-modular microgrids are identical."""
    ctx.check(dict(x.architecture) == dict(y.architecture), 'reproducible', lambda: f'{x.architecture} != {y.architecture}')
    ctx.check(x.get_parameters().equals(y.get_parameters()), 'reproducible', lambda: f'parameters {x.get_parameters().to_dict("list")} != {y.get_parameters().to_dict("list")}')
    P, Q = nonmod.Params.read(x), nonmod.Params.read(y)
    ctx.check(np.array_equal(P.load, Q.load) and np.array_equal(P.pv, Q.pv), 'reproducible', 'series differ')
    if P.grid:
        ctx.check(np.array_equal(P.grid['ts'], Q.grid['ts']), 'reproducible', 'grid series differ')
    ctx.count('compared')


class _Shuffled:
    def __init__(self, it, rng):
        with it:
            self.entries = list(it)
        rng.shuffle(self.entries)

    def __iter__(self):
        return iter(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def __next__(self):
        if not self.entries:
            raise StopIteration
        return self.entries.pop(0)


@contextlib.contextmanager
def listed_in_other_order(rng):
    """The operating system may list a directory in any order."""
    scandir, listdir = os.scandir, os.listdir

    def shuffled(*a):
        out = listdir(*a)
        rng.shuffle(out)
        return out
    os.scandir, os.listdir = lambda *a: _Shuffled(scandir(*a), rng), shuffled
    try:
        yield
    finally:
        os.scandir, os.listdir = scandir, listdir


def many(ctx, rng):
    """What a generator of varied microgrids has to produce over many draws (each claim fails by chance with a probability below 1e-9)."""
    seed = int(rng.integers(1 << 31))
    ctx.describe(dict(seed=seed, n=120))
    mgs = MicrogridGenerator(nb_microgrid=120, random_seed=seed).generate_microgrid(modular=False).microgrids
    ctx.check(len(mgs) == 120, 'number', lambda: f'{len(mgs)} microgrids instead of 120')
    Ps = [check(ctx, m) for m in mgs]
    arch = {(bool(P.genset), bool(P.grid)) for P in Ps}
    ctx.check(arch == {(True, False), (False, True), (True, True)}, 'variety', lambda: f'architectures (genset, grid) {arch}')
    grids = [(bool(m.get_parameters()['grid_weak'].values[0]), P.grid['ts']) for m, P in zip(mgs, Ps) if P.grid]
    weak = [ts for w, ts in grids if w]
    ctx.check(0 < len(weak) < len(grids), 'variety', lambda: f'{len(weak)} of {len(grids)} grids are weak')
    if len(weak) >= 22:
        out = sum((ts[:, 3] == 0).any() for ts in weak)
        ctx.check(out > 0, 'variety', lambda: f'none of {len(weak)} weak grids has outages')
        ctx.count('weak_with_outages', int(out))
    for what, vals in (('tariff', {ts[:, 0].tobytes() for _, ts in grids}), ('load', {P.load.max() for P in Ps}), ('pv', {P.pv.max() / P.load.max() for P in Ps}),
                       ('load profile', {(P.load / P.load.max()).round(9).tobytes() for P in Ps}), ('pv profile', {(P.pv / P.pv.max()).round(9).tobytes() for P in Ps}),
                       ('initial charge', {P.battery['soc'] for P in Ps})):
        ctx.check(len(vals) > 1, 'variety', lambda: f'the same {what} in each of 120 microgrids')
    ctx.count('many')


def run_case(ctx, rng, index):
    if index % 130 == 5:
        return many(ctx, rng)
    seed, n = int(rng.integers(1 << 31)) if index else 42, int(rng.choice([1, 2, 3, 5]))
    ctx.describe(dict(seed=seed, n=n))
    first = MicrogridGenerator(nb_microgrid=n, random_seed=seed).generate_microgrid(modular=False).microgrids
    ctx.check(len(first) == n, 'number', lambda: f'{len(first)} microgrids instead of {n}')
    np.random.rand(int(rng.integers(1, 50)))
    if index % 2:
        with listed_in_other_order(rng):
            second = MicrogridGenerator(nb_microgrid=n, random_seed=seed).generate_microgrid(modular=False).microgrids
    else:
        second = MicrogridGenerator(nb_microgrid=n, random_seed=seed).generate_microgrid(modular=False).microgrids
    ctx.check(len(second) == n, 'number', lambda: f'{len(second)} microgrids instead of {n}')
    Ps = [check(ctx, m) for m in first]
    for x, y in zip(first, second):
        same(ctx, x, y)
    default = MicrogridGenerator(nb_microgrid=n, random_seed=seed)
    modular = default.generate_microgrid().microgrids
    ctx.check(len(modular) == n, 'number', lambda: f'{len(modular)} modular microgrids instead of {n}')
    for m, P, nm in zip(modular, Ps, first):
        check_modular(ctx, m, P, nm.horizon)
    j = int(rng.integers(n))
    m, P = modular[j], Ps[j]
    if rng.integers(2):
        a = int(rng.integers(0, 8760 - 30))
        m.initial_step, m.final_step = a, a + 30
    elif rng.integers(2):
        m.initial_step = 8760 - 25
    m.reset()
    lo, hi = m.initial_step, m.final_step
    steps = 0
    for _ in range(40):
        obs, reward, done, info = m.run(m.sample_action(strict_bound=bool(rng.integers(2))))
        steps += 1
        p = sum(i.get('provided_energy', 0.0) for v in info.values() for i in v)
        q = sum(i.get('absorbed_energy', 0.0) for v in info.values() for i in v)
        ctx.close(p, q, 'run-balance', f'step {steps}', scale=P.scale)
        ctx.close(info['load'][0]['absorbed_energy'], P.load[lo + steps - 1], 'run-load', f'step {steps}')
        ctx.check(np.isfinite(reward), 'run-reward', lambda: f'{reward}')
        ctx.check(bool(done) == (lo + steps >= hi), 'run-done', lambda: f'done={done} after {steps} steps from {lo} to {hi}')
        ctx.count('steps')
        if done:
            break
    # another batch from the same generator comes on top
    if index % 7 == 0:
        default.generate_microgrid()
        ctx.check(len(default.microgrids) == 2 * n, 'number', lambda: f'{len(default.microgrids)} after a second call')
