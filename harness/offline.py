"""Offline checker: one whole log of a microgrid against the guarantees about energy, limits, state and cost."""
import numpy as np

from .monitors import ENERGY_NAMES, PREFIXES


def check_log(ctx, ref, log, spec, forecasts=True):
    """Vectorised over the rows of a log; ref describes the system, the index of the log is the time step."""
    t = log.index.to_numpy()
    n = len(t)
    ctx.check(n > 0 and (np.diff(t) == 1).all(), 'log-index', lambda: f'{t[:5]}..')
    col = {c: log[c].to_numpy(dtype=float) for c in log.columns}
    tol = 1e-9 * ref.escale

    def near(a, b, key, what, scale=ref.escale):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        bad = ~(np.abs(a - b) <= 1e-9 * np.maximum(np.maximum(np.abs(a), np.abs(b)), scale))
        ctx.check(not bad.any(), key, lambda: f'{what}: t={t[np.argmax(bad)]}: {a[np.argmax(bad)]!r} expected {b[np.argmax(bad)]!r}')
        ctx.count('log_cells', n)

    def below(a, b, key, what):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        bad = ~(a <= b + tol)
        ctx.check(not bad.any(), key, lambda: f'{what}: t={t[np.argmax(bad)]}: {a[np.argmax(bad)]!r} exceeds {b[np.argmax(bad)]!r}')
        ctx.count('log_cells', n)
    tot = {c: [np.zeros(n), np.zeros(n)] for c in ('fixed', 'controllable', 'flex')}
    reward = np.zeros(n)
    curtailed, used, loss, over = (np.zeros(n) for _ in range(4))
    for r in ref.all:
        get = lambda f: col[(r.name, r.num, f)]
        pn, an = ENERGY_NAMES[r.kind]
        p = get(pn) if pn else np.zeros(n)
        a = get(an) if an else np.zeros(n)
        ctx.check(np.isfinite(p).all() and np.isfinite(a).all() and (p >= 0).all() and (a >= 0).all(), 'energy-sign', lambda: f'{r.id}')
        tot[r.category[0]][0] += p
        tot[r.category[0]][1] += a
        m = r.m
        if r.is_ts:
            v = r.vals[t]
            for j, c in enumerate(r.components):
                near(get(f'{c}_current'), v[:, j], 'series', f'{r.id} {c}_current', scale=0)
                for h in range(r.fc['h'] if r.fc and forecasts else 0):
                    k = t + h + 1
                    inside = k < len(r.vals)
                    lo, hi = r.value_bounds()
                    want = np.where(inside, r.vals[np.minimum(k, len(r.vals) - 1), j], (lo[j] + hi[j]) / 2)
                    near(get(f'{c}_forecast_{h}'), want, 'forecast', f'{r.id} {c}_forecast_{h}', scale=0)
        if r.kind == 'load':
            near(a, -v[:, 0], 'load', f'{r.id} load met', scale=0)
            rw = np.zeros(n)
        elif r.kind == 'renewable':
            near(p + get('curtailment'), v[:, 0], 'available', f'{r.id} used + curtailed')
            below(0, get('curtailment'), 'curtailment', f'{r.id}')
            curtailed, used = curtailed + get('curtailment'), used + p
            rw = np.zeros(n)
        elif r.kind == 'balancing':
            loss, over = loss + p, over + a
            rw = -spec['llc'] * p - spec['ogc'] * a
        elif r.kind == 'battery':
            c, s = get('current_charge'), get('soc')
            near(s, c / m['max'], 'soc', f'{r.id} soc', scale=1)
            below(c, m['max'], 'capacity', f'{r.id} charge')
            below(m['min'], c, 'capacity', f'{r.id} minimum')
            change = a * m['eff'] - p / m['eff']
            near(c[1:], (c + change)[:-1], 'charge', f'{r.id} charge after flows') if n > 1 else None
            below(p, np.minimum(m['discharge'], c - m['min']) * m['eff'], 'discharge', f'{r.id} discharge')
            below(a, np.minimum(m['charge'], m['max'] - c) / m['eff'], 'charge-limit', f'{r.id} charging')
            rw = -m['cost'] * np.abs(change)
        elif r.kind == 'genset':
            on = get('current_status')
            ctx.check(np.isin(on, (0, 1)).all(), 'status')
            below(p, on * m['max'], 'production', f'{r.id}')
            below(on * m['min'], p, 'production', f'{r.id} minimum')
            near(get('co2_production'), m['co2'] * p, 'co2', f'{r.id}')
            rw = -(m['cost'] + m['co2cost'] * m['co2']) * p
        else:
            below(p, v[:, 3] * m['imp'], 'import', f'{r.id}')
            below(a, v[:, 3] * m['exp'], 'export', f'{r.id}')
            near(get('co2_production'), v[:, 2] * p, 'co2', f'{r.id}')
            rw = -(v[:, 0] + m['co2cost'] * v[:, 2]) * p + v[:, 1] * a
            ctx.count('outages', int((v[:, 3] == 0).sum()))
        near(get('reward'), rw, 'reward', f'{r.id} reward', scale=ref.escale * 10)
        reward += rw
    P, A = (sum(x[k] for x in tot.values()) for k in (0, 1))
    near(P, A, 'conserved', 'provided vs absorbed')
    for k, w in dict(fixed=tot['fixed'], controllable=tot['controllable'], overall=(P, A)).items():
        near(col[('balance', 0, f'{k}_provided_to_microgrid')], w[0], 'totals', f'{k} provided')
        near(col[('balance', 0, f'{k}_absorbed_from_microgrid')], w[1], 'totals', f'{k} absorbed')
    near(col[('balance', 0, 'reward')], reward, 'total-reward', 'reward', scale=ref.escale * 100)
    ctx.check(not ((loss > tol) & (curtailed > tol)).any(), 'loss-while-curtailing')
    ctx.check(not ((loss > tol) & (over > tol)).any(), 'both-unbalanced')
    ctx.check(not ((over > tol) & (used > tol)).any(), 'over-while-renewable')
    ctx.count('log_rows', n)
