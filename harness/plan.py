"""Independent optimiser of the planning problem of model predictive control (scipy's HiGHS; the code uses cvxpy and GLPK)."""
import contextlib
import os
import sys

import numpy as np
from scipy.optimize import Bounds, LinearConstraint, milp


@contextlib.contextmanager
def _silent():
    """HiGHS prints to file descriptor 1."""
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def optimum(load, pv, soc, battery, grid=None, genset=None, llc=0.0, first=None, slack=0.0, exclusive=False):
    """Least cost of covering load over the horizon; None if infeasible.

    battery: dict(capacity, soc_min, soc_max, charge, discharge (external power limits), eff, cost per unit exchanged)
    grid: dict(imp, exp, price_import, price_export, status) with series, import prices including emissions
    genset: dict(min, max, cost)
    exclusive: forbid charging and discharging, or importing and exporting, in one step (the code's plans may do both at once).
    first: dict(battery=, grid=, genset=) of signed energies provided in the first step, each kept within slack.
    """
    H = len(load)
    names = ['dis', 'ch', 'imp', 'exp', 'gen', 'on', 'curt', 'loss', 'soc', 'isdis', 'isimp']
    ix = {n: slice(k * H, (k + 1) * H) for k, n in enumerate(names)}
    N = len(names) * H
    lo, hi, c = np.zeros(N), np.zeros(N), np.zeros(N)
    b = battery
    hi[ix['dis']], hi[ix['ch']] = b['discharge'], b['charge']
    c[ix['dis']] = c[ix['ch']] = b['cost']
    lo[ix['soc']], hi[ix['soc']] = min(b['soc_min'], soc), max(b['soc_max'], soc)
    if grid is not None:
        hi[ix['imp']], hi[ix['exp']] = grid['imp'] * grid['status'], grid['exp'] * grid['status']
        c[ix['imp']], c[ix['exp']] = grid['price_import'], -grid['price_export']
    integrality = np.zeros(N)
    if genset is not None:
        hi[ix['gen']], hi[ix['on']] = genset['max'], 1
        c[ix['gen']] = genset['cost']
        integrality[ix['on']] = 1
    hi[ix['curt']], hi[ix['loss']] = pv, load
    c[ix['loss']] = llc
    if exclusive:
        for n in ('isdis', 'isimp'):
            hi[ix[n]], integrality[ix[n]] = 1, 1
    rows, rl, ru = [], [], []

    def row(coef, low, up):
        r = np.zeros(N)
        for k, v in coef.items():
            r[k] += v
        rows.append(r)
        rl.append(low)
        ru.append(up)
    at = lambda n, k: ix[n].start + k
    for k in range(H):
        need = load[k] - pv[k]
        row({at('dis', k): 1, at('ch', k): -1, at('imp', k): 1, at('exp', k): -1, at('gen', k): 1, at('curt', k): -1, at('loss', k): 1}, need, need)
        coef = {at('soc', k): 1, at('ch', k): -b['eff'] / b['capacity'], at('dis', k): 1 / (b['eff'] * b['capacity'])}
        if k:
            coef[at('soc', k - 1)] = -1
        row(coef, 0.0 if k else soc, 0.0 if k else soc)
        if genset is not None:
            row({at('gen', k): 1, at('on', k): -genset['min']}, 0, np.inf)
            row({at('gen', k): 1, at('on', k): -genset['max']}, -np.inf, 0)
        if exclusive:
            for n, p, m in (('isdis', 'dis', 'ch'), ('isimp', 'imp', 'exp')):
                row({at(p, k): 1, at(n, k): -hi[at(p, k)]}, -np.inf, 0)
                row({at(m, k): 1, at(n, k): hi[at(m, k)]}, -np.inf, hi[at(m, k)])
    for key, (p, m) in dict(battery=('dis', 'ch'), grid=('imp', 'exp'), genset=('gen', None)).items():
        if first is not None and key in first:
            coef = {at(p, 0): 1}
            if m:
                coef[at(m, 0)] = -1
            row(coef, first[key] - slack, first[key] + slack)
    A = LinearConstraint(np.array(rows), rl, ru)
    with _silent():
        for presolve in (True, False):
            res = milp(c, constraints=A, bounds=Bounds(lo, hi), integrality=integrality, options=dict(mip_rel_gap=1e-9, presolve=presolve))
            if res.x is not None:
                return float(res.fun)
    return None
