"""Facet monitors: each compares what a running microgrid reports with the reference model (ref.py)."""
import copy

import numpy as np

from .drive import energies, Rec

ENERGY_NAMES = dict(battery=('discharge_amount', 'charge_amount'), grid=('grid_import', 'grid_export'),
                    genset=('genset_production', None), renewable=('renewable_used', None), load=(None, 'load_met'),
                    balancing=('loss_load', 'overgeneration'))
PREFIXES = ('fixed', 'controllable', 'overall')


def last_row(S):
    log = S.mg.get_log()
    return log.iloc[-1].to_dict(), log


class Energy:
    """C01: reported energies balance; logged totals are their sums."""

    def __init__(self, p_log=.3):
        self.p_log = p_log

    def step(self, S, rec):
        ctx, ref = S.ctx, S.ref
        tot = {c: [0.0, 0.0] for c in ('fixed', 'controllable', 'flex')}
        for r in ref.all:
            d = rec.info[r.name][r.num]
            ctx.check(set(d) & {'provided_energy', 'absorbed_energy'}, 'no-energy', lambda: f'{r.id} reports no energy: {d}')
            p, a = energies(rec.info, r)
            ctx.check(np.isfinite(p) and np.isfinite(a) and p >= 0 and a >= 0, 'bad-energy',
                      lambda: f'{r.id} provides {p}, absorbs {a}')
            tot[r.category[0]][0] += p
            tot[r.category[0]][1] += a
        P, A = [sum(t[k] for t in tot.values()) for k in (0, 1)]
        ctx.close(P, A, 'not-conserved', f'step {rec.t}: provided vs absorbed', scale=ref.escale)
        situation = tuple(sorted((r.kind, *(np.sign(round(e / ref.escale, 9)) for e in energies(rec.info, r))) for r in ref.all))
        ctx.seen('flows', situation)
        if S.rng.uniform() < self.p_log:
            row, _ = last_row(S)
            want = dict(fixed=tot['fixed'], controllable=tot['controllable'], overall=(P, A))
            for k in PREFIXES:
                for j, what in enumerate(('provided_to_microgrid', 'absorbed_from_microgrid')):
                    ctx.close(row[('balance', 0, f'{k}_{what}')], want[k][j], 'totals', f'logged {k}_{what}', scale=ref.escale)
            ctx.count('logged_totals')
        return P, A


class Battery:
    """C02"""

    def check_state(self, S, obs):
        for r in S.ref.all:
            if r.kind != 'battery':
                continue
            s, m = obs.state[r.id], r.m
            S.ctx.check(set(s) == {'soc', 'current_charge'}, 'battery-state', lambda: f'{s}')
            S.ctx.check(m['min'] - 1e-9 * m['max'] <= s['current_charge'] <= m['max'] * (1 + 1e-9), 'capacity',
                        lambda: f'{r.id} charge {s["current_charge"]} outside [{m["min"]}, {m["max"]}]')
            S.ctx.close(s['soc'], s['current_charge'] / m['max'], 'soc', f'{r.id} soc')
            mod = S.module(r.id)
            S.ctx.check(mod.soc == s['soc'] and mod.current_charge == s['current_charge'], 'battery-attrs',
                        lambda: f'{mod.soc} {mod.current_charge} vs {s}')

    def start(self, S):
        obs = S.observe()
        self.check_state(S, obs)
        for r in S.ref.all:
            if r.kind == 'battery':
                S.ctx.close(obs.state[r.id]['current_charge'], r.m['init'], 'initial-charge', f'{r.id}', scale=r.m['max'])

    def step(self, S, rec):
        ctx = S.ctx
        self.check_state(S, rec.post)
        for r in S.ref.all:
            if r.kind != 'battery':
                continue
            m, c0, c1 = r.m, rec.pre.state[r.id]['current_charge'], rec.post.state[r.id]['current_charge']
            p, a = energies(rec.info, r)
            ctx.check(p == 0 or a == 0, 'both-directions', lambda: f'{r.id} provides {p} and absorbs {a}')
            ctx.close(c1 - c0, r.internal(p, a, rec.pre.state[r.id]), 'charge-change',
                      f'{r.id} provided {p} absorbed {a}, charge {c0} -> {c1}; change', scale=max(m['max'], p, a))
            lo, hi, sink = r.limits(rec.pre.state[r.id], rec.t)
            tol = 1e-9 * max(m['max'], m['charge'], m['discharge'])
            ctx.check(p <= hi + tol, 'over-discharge', lambda: f'{r.id} provides {p} of at most {hi}')
            ctx.check(a <= sink + tol, 'over-charge', lambda: f'{r.id} absorbs {a} of at most {sink}')
            full, empty = abs(c1 - m['max']) < 1e-9 * m['max'], abs(c1 - m['min']) < 1e-9 * m['max']
            ctx.count('battery_steps')
            ctx.count('battery_full', int(full))
            ctx.count('battery_empty', int(empty))
            ctx.seen('battery', m['eff'] == 1, m['tm'], full, empty, p > 0, a > 0, abs(p - hi) < tol, abs(a - sink) < tol,
                     c0 == m['max'], c0 == m['min'])

    def reset(self, S, rec):
        self.check_state(S, rec.post)
        for r in S.ref.all:
            if r.kind == 'battery':
                S.ctx.check(rec.pre.state[r.id] == rec.post.state[r.id], 'reset-charge',
                            lambda: f'{r.id} {rec.pre.state[r.id]} -> {rec.post.state[r.id]} on reset')

    def other(self, S, op, pre, post):
        self.check_state(S, post)
        if op != 'soc':
            for r in S.ref.all:
                if r.kind == 'battery':
                    for k in ('soc', 'current_charge'):
                        S.ctx.close(post.state[r.id][k], pre.state[r.id][k], 'other-charge', f'{r.id} {k} changed by {op}', scale=r.m['max'])


class Genset:
    """C03"""

    def start(self, S):
        self.streak = {}
        self.advert = {}
        obs = S.observe()
        for r in S.ref.all:
            if r.kind == 'genset':
                on = int(r.m['init_on'])
                want = dict(current_status=on, goal_status=on, steps_until_up=0 if on else r.m['up'],
                            steps_until_down=r.m['down'] if on else 0)
                S.ctx.check(obs.state[r.id] == want, 'initial-status', lambda: f'{r.id} {obs.state[r.id]} expected {want}')
                self.streak[r.id] = 0

    def before(self, S):
        for r in S.ref.all:
            if r.kind == 'genset':
                m = S.module(r.id)
                self.advert[r.id] = {g: (m.next_status(g), m.next_min_production(g), m.next_max_production(g)) for g in (0, 1)}

    def step(self, S, rec):
        ctx = S.ctx
        for r in S.ref.all:
            if r.kind != 'genset':
                continue
            m, pre, post, e = r.m, rec.pre.state[r.id], rec.post.state[r.id], rec.exp['modules'][r.id]
            goal = e['goal']
            # history oracle: the change completes on the (time + 1)-th request since it began
            s0 = int(pre['current_status'])
            wait = m['down'] if s0 else m['up']
            moving = self.streak[r.id] > 0
            if goal != s0:
                self.streak[r.id] += 1
            elif moving and not (m['abort'] or (m['up'] if s0 else m['down']) == 0):
                self.streak[r.id] += 1          # cannot be aborted
            else:
                self.streak[r.id] = 0
            want = 1 - s0 if self.streak[r.id] > wait else s0
            if want != s0:
                self.streak[r.id] = 0
            S.ctx.check(post['current_status'] == want, 'status',
                        lambda: f'{r.id} {pre} asked for {goal}: status {post["current_status"]} expected {want}')
            ctx.check(post == e['next'], 'status-state', lambda: f'{r.id} {pre} asked for {goal}: {post} expected {e["next"]}')
            p, a = energies(rec.info, r)
            on = post['current_status']
            tol = 1e-9 * m['max']
            ctx.check(on * m['min'] - tol <= p <= on * m['max'] + tol and a == 0, 'production',
                      lambda: f'{r.id} status {on} produces {p}, limits [{m["min"]}, {m["max"]}]')
            if self.advert.get(r.id):
                st, lo, hi = self.advert[r.id][goal]
                ctx.check(st == on and abs(lo - on * m['min']) <= tol and abs(hi - on * m['max']) <= tol, 'advertised',
                          lambda: f'{r.id} advertised status {st}, production [{lo}, {hi}] for goal {goal}; got status {on}')
            mod = S.module(r.id)
            ctx.check((mod.current_status, mod.goal_status) == (post['current_status'], post['goal_status']), 'genset-attrs')
            ctx.count('genset_steps')
            ctx.count('genset_changes', int(post['current_status'] != s0))
            ctx.count('genset_aborts', int(moving and goal == s0 and self.streak[r.id] == 0 and m['abort']))
            ctx.count('genset_unabortable', int(moving and goal == s0 and not m['abort']))
            ctx.seen('genset', m['up'], m['down'], m['abort'], tuple(pre.values()), goal, p > 0)

    def reset(self, S, rec):
        pass

    def other(self, S, op, pre, post):
        for r in S.ref.all:
            if r.kind == 'genset':
                S.ctx.check(post.state[r.id] == pre.state[r.id], 'other-status', lambda: f'{r.id} status changed by {op}')


class Grid:
    """C04"""

    def step(self, S, rec):
        ctx = S.ctx
        for r in S.ref.all:
            if r.kind != 'grid':
                continue
            m, t = r.m, rec.t
            price, export, co2, status = r.vals[t]
            d = rec.info[r.name][r.num]
            p, a = energies(rec.info, r)
            tol = 1e-9 * max(m['imp'], m['exp'])
            ctx.check(p <= status * m['imp'] + tol, 'import-limit', lambda: f'{r.id} t={t} imports {p}, limit {m["imp"]}, status {status}')
            ctx.check(a <= status * m['exp'] + tol, 'export-limit', lambda: f'{r.id} t={t} exports {a}, limit {m["exp"]}, status {status}')
            ctx.check(p == 0 or a == 0, 'both-directions')
            ctx.close(d['co2_production'], co2 * p, 'co2', f'{r.id} t={t} co2 of importing {p} exporting {a}', scale=co2 * tol / 1e-9)
            if status == 0:
                ctx.check(p == 0 and a == 0, 'outage')
                ctx.count('outage_steps')
                ctx.count('outage_requests', int(rec.exp['modules'][r.id]['request'] != 0))
            row, _ = last_row(S)
            cost = row[(r.name, r.num, 'reward')]
            want = -price * p - m['co2cost'] * co2 * p + export * a
            ctx.close(cost, want, 'grid-reward', f'{r.id} t={t} imports {p} exports {a}: reward',
                      scale=(price + export + m['co2cost'] * co2) * S.ref.escale)
            ctx.count('imports', int(p > 0))
            ctx.count('exports', int(a > 0))
            ctx.seen('grid', len(m['ts'][0]), status, p > 0, a > 0, abs(p - m['imp']) <= tol, abs(a - m['exp']) <= tol,
                     price == 0, export > 0, co2 > 0, m['imp'] == 0, m['exp'] == 0, rec.done, m['co2cost'] > 0)

    def reset(self, S, rec):
        pass


class Reward:
    """C05: every module's term, recomputed from the energies it reported."""

    def step(self, S, rec):
        ctx, ref = S.ctx, S.ref
        row, _ = last_row(S)
        total, mag = 0.0, ref.escale
        for r in ref.all:
            p, a = energies(rec.info, r)
            want = r.cost(p, a, rec.pre.state[r.id], rec.t)
            rate = max([1.0, abs(ref.spec['llc']), abs(ref.spec['ogc'])] + [abs(r.m.get(k) or 0) for k in ('co2cost',)] +
                       ([r.vals[rec.t, :3].max()] if r.kind == 'grid' else []))
            mag = max(mag, abs(want), rate * ref.escale)
            ctx.close(row[(r.name, r.num, 'reward')], want, f'module-reward-{r.kind}',
                      f'{r.id} t={rec.t} provides {p} absorbs {a}: reward', scale=rate * ref.escale)
            total += want
            ctx.count(f'{r.kind}_terms')
            ctx.seen('reward', r.kind, want < 0, want > 0, p > 0, a > 0, isinstance(r.m.get('cost'), str), r.m.get('tm'))
        ctx.close(row[('balance', 0, 'reward')], total, 'logged-reward', 'reward in log', scale=mag)
        if S.spec['shaper'] is None:
            ctx.close(rec.reward, total, 'reward', f'reward of step {rec.t}', scale=mag)
            ctx.close(row[('balance', 0, 'shaped_reward')], total, 'shaped-reward', 'shaped reward in log', scale=mag)


class Dispatch:
    """C06"""

    def step(self, S, rec):
        ctx, ref, t = S.ctx, S.ref, rec.t
        tol = 1e-9 * ref.escale
        net = 0.0
        for r in ref.fixed:
            p, a = energies(rec.info, r)
            ctx.close(a, -r.vals[t, 0], 'load', f'{r.id} t={t} draws', scale=ref.escale * 1e-6)
            ctx.check(p == 0, 'load-provides')
            net -= a
        for r in ref.controllable:
            p, a = energies(rec.info, r)
            net += p - a
        left = max(-net, 0.0)
        used = curtailed = avail = loss = over = 0.0
        for r in ref.flex:
            p, a = energies(rec.info, r)
            if r.kind == 'renewable':
                v = r.vals[t, 0]
                ctx.close(p + rec.info[r.name][r.num]['curtailment'], v, 'available',
                          f'{r.id} t={t} used {p} + curtailed', scale=ref.escale * 1e-6)
                ctx.check(p >= 0 and rec.info[r.name][r.num]['curtailment'] >= -tol and a == 0, 'curtailment')
                want = min(left, v)
                ctx.close(p, want, 'renewable-order', f'{r.id} t={t} with {left} needed and {v} available uses', scale=ref.escale)
                left -= want
                used, avail = used + p, avail + v
                curtailed += rec.info[r.name][r.num]['curtailment']
            else:
                ctx.check(p <= tol or a <= tol, 'both-unbalanced', lambda: f'{r.id} loss load {p} and overgeneration {a}')
                ctx.close(p, left if not loss else 0.0, 'loss-load', f'{r.id} t={t} net {net}: loss load', scale=ref.escale)
                ctx.close(a, max(net, 0.0) if not over else 0.0, 'overgeneration', f'{r.id} t={t} net {net}: overgeneration', scale=ref.escale)
                left = 0.0 if p else left
                loss, over = loss + p, over + a
        ctx.check(not (loss > tol and over > tol), 'both-unbalanced', lambda: f'loss load {loss} and overgeneration {over}')
        ctx.check(not (loss > tol and curtailed > tol), 'loss-while-curtailing', lambda: f'loss load {loss} with {curtailed} curtailed')
        ctx.check(not (over > tol and used > tol), 'over-while-renewable', lambda: f'overgeneration {over} with {used} renewable used')
        ctx.count('loss_load_steps', int(loss > tol))
        ctx.count('overgeneration_steps', int(over > tol))
        ctx.count('curtailment_steps', int(curtailed > tol))
        ctx.seen('dispatch', loss > tol, over > tol, curtailed > tol, used > tol, sum(r.kind == 'renewable' for r in ref.flex),
                 len(ref.fixed), abs(net) <= tol, avail > tol)


class Clock:
    """C07"""

    def start(self, S):
        S.ctx.check(set(S.observe().steps.values()) == {S.episode[0] if S.episode[0] is not None else 0}, 'initial-step',
                    lambda: f'{S.observe().steps} expected {S.episode}')
        self.since_reset = 0
        self.whole = True
        self.windows(S)

    def windows(self, S):
        if S.ref.length is None:
            return
        S.ctx.check((S.mg.initial_step, S.mg.final_step) == tuple(S.window), 'window-attrs',
                    lambda: f'{(S.mg.initial_step, S.mg.final_step)} expected {S.window}')
        for r in S.ref.all:
            m = S.module(r.id)
            S.ctx.check(m.initial_step == S.episode[0], 'module-window', lambda: f'{r.id} initial step {m.initial_step} of {S.episode}')
            if r.is_ts:
                S.ctx.check(m.final_step == S.episode[1], 'module-window', lambda: f'{r.id} final step {m.final_step} of {S.episode}')

    def step(self, S, rec):
        S.ctx.check(set(rec.post.steps.values()) == {rec.t + 1}, 'advance', lambda: f'{rec.post.steps} after a step at {rec.t}')
        S.ctx.check(S.mg.current_step == rec.t + 1, 'advance', lambda: f'current_step {S.mg.current_step} after a step at {rec.t}')
        self.since_reset += 1
        if S.ref.length is None:
            S.ctx.check(not rec.done, 'done', 'done without a time series')
            return
        S.ctx.check(bool(rec.done) == (rec.t >= S.episode[1] - 1), 'done', lambda: f'done={rec.done} at {rec.t} of {S.episode}')
        if rec.done and self.since_reset is not None and rec.t == S.episode[1] - 1 and self.whole:
            S.ctx.check(self.since_reset == S.episode[1] - S.episode[0], 'episode-length', lambda: f'{self.since_reset} {S.episode}')
            S.ctx.count('episodes')
        S.ctx.seen('clock', bool(rec.done), rec.t - S.episode[1], rec.t == S.episode[0], S.episode[0], S.episode[1] - S.episode[0])

    def reset(self, S, rec):
        if S.rng.integers(4) == 0 and S.ref.ts:
            # a window has to end after it starts, at a whole step
            m = copy.deepcopy(S.module(S.ref.ts[int(S.rng.integers(len(S.ref.ts)))].id))
            m.initial_step = max(1, m.initial_step)
            for v in (m.initial_step, m.initial_step - .5, m.initial_step + 1.5, int(S.rng.integers(1, m.initial_step + 1))):
                def put():
                    m.final_step = v
                S.ctx.raises(ValueError, put, 'bad-window', f'final step {v} of a window from {m.initial_step}')
            S.ctx.count('bad_windows')
        want = S.episode[0] if S.ref.length is not None else (S.spec.get('ctor_initial') or 0)
        S.ctx.check(set(rec.post.steps.values()) == {want} and S.mg.current_step == want, 'reset-step',
                    lambda: f'{rec.post.steps} after a reset, expected {want}')
        self.since_reset, self.whole = 0, True
        self.windows(S)

    def other(self, S, op, pre, post):
        S.ctx.check(pre.steps == post.steps, 'other-step', lambda: f'{op}: {pre.steps} -> {post.steps}')
        self.windows(S)


class Log:
    """C08: the whole log against the recorded history."""

    def __init__(self, p=.15):
        self.p = p
        self.kept, self.dicts = [], []
        self.again = None                            # rows of the last log that was read before the last reset

    def step(self, S, rec):
        rec.keys = {r.id: list(rec.pre.state[r.id]) for r in S.ref.all}
        if self.again:
            # no log is read between two logs of the same length and different episodes
            if len(S.rows) == self.again:
                self.compare(S)
                self.again = None
                S.ctx.count('same_length')
        elif S.rng.uniform() < self.p:
            self.compare(S)

    def reset(self, S, rec):
        self.recheck(S)
        self.again = None
        if getattr(self, 'last', 0) and S.rng.integers(2):
            self.again = self.last
        else:
            S.ctx.check(len(S.mg.get_log()) == 0, 'reset-log', 'log not empty after a reset')
        self.last = 0
        b = rec.out['balance']
        S.ctx.check(all(len(v) == len(rec.rows) for v in b.values()), 'flushed', lambda: f'{len(rec.rows)} steps but flushed {b}')
        if rec.rows:
            S.ctx.check({'reward', 'shaped_reward'} | {f'{x}_{w}' for x in PREFIXES for w in ('provided_to_microgrid', 'absorbed_from_microgrid')} <= set(b) and
                        list(map(float, b['shaped_reward'])) == [float(r.reward) for r in rec.rows], 'flushed', lambda: f'{len(rec.rows)} steps but flushed {b}')
            S.ctx.count('flushed')

    def other(self, S, op, pre, post):
        if S.rows and S.rng.integers(2) and not self.again:
            self.compare(S)

    def recheck(self, S):
        for frame, was in self.kept:
            S.ctx.check(frame.equals(was), 'log-altered', 'a log returned earlier was altered')
            S.ctx.count('logs_rechecked')
        for d, was in self.dicts:
            S.ctx.check(d.keys() == was.keys() and all(np.array_equal(np.array(d[k], dtype=float), np.array(was[k], dtype=float), equal_nan=True) for k in d),
                        'log-altered', lambda: f'a log dict returned earlier was altered: {was} became {d}')
        del self.kept[:], self.dicts[:]

    def compare(self, S):
        ctx, ref, rows = S.ctx, S.ref, S.rows
        log = S.mg.get_log()
        n = self.last = len(rows)
        ctx.check(len(log) == n, 'log-length', lambda: f'{len(log)} rows after {n} steps')
        if not n:
            return
        ctx.check(list(log.index) == [r.t for r in rows], 'log-index', lambda: f'{list(log.index)} for steps {[r.t for r in rows]}')
        cols, want = {}, {}

        def put(col, k, v):
            want.setdefault(col, [np.nan] * n)[k] = v
        for k, rec in enumerate(rows):
            for r in ref.all:
                base = (r.name, r.num)
                prov, absd = ENERGY_NAMES[r.kind]
                p, a = energies(rec.info, r)
                if prov:
                    put(base + (prov,), k, p)
                if absd:
                    put(base + (absd,), k, a)
                for extra in set(rec.info[r.name][r.num]) - {'provided_energy', 'absorbed_energy'}:
                    put(base + (extra,), k, rec.info[r.name][r.num][extra])
                put(base + ('reward',), k, r.cost(p, a, rec.pre.state[r.id], rec.t))
                # a genset's request takes effect before its energy is produced: its row holds the status it ran with
                state = rec.post.state[r.id] if r.kind == 'genset' else rec.pre.state[r.id]
                for key, v in state.items():
                    put(base + (key,), k, v)
            for prefix in PREFIXES:
                group = [energies(rec.info, r) for r in ref.all if prefix == 'overall' or r.category[0] == prefix]
                for j, w in enumerate(('provided_to_microgrid', 'absorbed_from_microgrid')):
                    put(('balance', 0, f'{prefix}_{w}'), k, sum(e[j] for e in group))
            put(('balance', 0, 'reward'), k, np.nan)
            put(('balance', 0, 'shaped_reward'), k, rec.reward)
        ctx.check(set(log.columns) == set(want) and len(log.columns) == len(want), 'log-columns',
                  lambda: f'missing {set(want) - set(log.columns)}, extra {set(log.columns) - set(want)}')
        total = np.zeros(n)
        for col, vals in want.items():
            got = log[col].to_numpy(dtype=float)
            vals = np.array(vals, dtype=float)
            if col[2] == 'reward':
                if col[0] != 'balance':
                    r = ref.by_id[col[:2]]
                    rate = max([1.0, abs(ref.spec['llc']), abs(ref.spec['ogc']), abs(r.m.get('co2cost') or 0)] + ([r.vals[:, :3].max()] if r.kind == 'grid' else []))
                    ctx.arr_close(got, vals, 'log-reward', f'{col}', scale=rate * ref.escale)
                    total = total + got
                continue
            if col[0] == 'balance' and 'microgrid' in col[2]:
                ctx.arr_close(got, vals, 'log-balance', f'{col}', scale=ref.escale)
                continue
            bad = ~((got == vals) | (np.isnan(got) & np.isnan(vals)) | (np.abs(got - vals) <= 1e-9 * np.maximum(np.abs(vals), 1e-12)))
            ctx.check(not bad.any(), 'log-value', lambda: f'{col} row {int(np.argmax(bad))}: logged {got[np.argmax(bad)]}, was {vals[np.argmax(bad)]}')
        ctx.arr_close(log[('balance', 0, 'reward')], total, 'log-total', 'logged total reward', scale=ref.escale * 100)
        short = S.mg.get_log(drop_singleton_key=True)
        single = all(len(l) == 1 for l in ref.by_name.values())
        ctx.check([tuple(c) for c in short.columns] == [(c[0], c[2]) if single else tuple(c) for c in log.columns], 'singleton-key',
                  lambda: f'{list(short.columns)[:4]} with one module per name: {single}')
        ctx.check(len(short) == n and np.array_equal(short.to_numpy(dtype=float), log.to_numpy(dtype=float), equal_nan=True), 'singleton-key')
        as_dict = S.mg.get_log(as_frame=False)
        ctx.check(as_dict.keys() == set(log.columns) and all(list(v) == list(log.index) for v in as_dict.values()), 'log-dict')
        for r in ref.all:
            last = S.module(r.id).logger_last
            frame = S.module(r.id).log
            ctx.check(set(last) == {c[2] for c in want if c[:2] == r.id} and all(v == log[r.id + (k,)].iloc[-1] or v != v for k, v in last.items()), 'logger-last',
                      lambda: f'{r.id}: {last}')
            ctx.check(len(frame) == n and all(np.array_equal(frame[c[2]].to_numpy(dtype=float), log[c].to_numpy(dtype=float), equal_nan=True) for c in want if c[:2] == r.id),
                      'module-log', lambda: f'{r.id}: {frame}')
        ctx.count('logs_compared')
        ctx.count('rows_compared', n)
        ctx.seen('log', n, len(want), tuple(sorted(r.kind for r in ref.all)))
        self.kept.append((log, log.copy(deep=True)))
        d = S.module(ref.all[S.rng.integers(len(ref.all))].id).log_dict()
        frame = S.module(ref.all[S.rng.integers(len(ref.all))].id).log
        self.dicts.append((d, copy.deepcopy(d)))
        self.kept.append((frame, frame.copy(deep=True)))


class Obs:
    """C10 (and the state side of C11): states and observations."""

    def __init__(self):
        self.past_end = 0

    def state(self, S, obs, returned=None):
        ctx = S.ctx
        norm = S.mg.state_dict(normalized=True)
        for r in S.ref.all:
            st = obs.state[r.id]
            if r.is_ts and r.fc is not None and (r.fc['h'] == 0):
                continue
            ctx.check(list(st) == r.state_keys(), 'state-keys', lambda: f'{r.id}: {list(st)} expected {r.state_keys()}')
            v = np.array(list(st.values()), dtype=float)
            lo, hi = r.obs_bounds()
            t = obs.steps[r.id]
            if r.is_ts:
                want = r.ts_state(t)
                known = ~np.isnan(want)
                ctx.arr_close(v[known], want[known], 'ts-state', f'{r.id} at {t}', scale=max(np.abs(hi).max(), np.abs(lo).max()))
                if t >= len(r.vals):
                    ctx.count('past_end')
                else:
                    self.accessors(S, r, t, want)
            spread = np.where(hi - lo == 0, 1.0, hi - lo)
            z = (v - lo) / spread
            n = np.array([norm[r.name][r.num][k] for k in st], dtype=float)
            ctx.check(list(norm[r.name][r.num]) == list(st), 'norm-keys', lambda: f'{list(norm[r.name][r.num])}')
            # values next to a large offset lose digits when normalised
            tol = 1e-9 * np.maximum(1.0, np.maximum(np.abs(lo), np.abs(hi)) / spread)
            ctx.check((np.abs(n - z) <= tol).all(), 'normalized-state', lambda: f'{r.id} at {t}: {n} expected {z}')
            ctx.check(((n >= -tol) & (n <= 1 + tol)).all(), 'unit-range', lambda: f'{r.id} at {t}: {n}')
            if returned is not None:
                o = np.atleast_1d(np.asarray(returned[r.name][r.num], dtype=float))
                ctx.check(o.shape == z.shape and (np.abs(o - z) <= tol).all(), 'observation', lambda: f'{r.id} at {t}: observed {o} expected {z}')
            ctx.seen('obs', r.kind, None if not r.fc else (str(r.fc['f']), r.fc['h']), t if r.ts_state and r.is_ts and t > len(r.vals) - 3 else -1)
        ctx.count('states_checked')

    def accessors(self, S, r, t, want):
        """The properties of a module say what its state says."""
        ctx, mod, cur = S.ctx, S.module(r.id), r.vals[t]
        if r.kind == 'grid':
            n = len(cur)
            for k, what in enumerate(('import_price', 'export_price', 'co2_per_kwh', 'grid_status')):
                got, exp = np.asarray(getattr(mod, what), dtype=float), want[k::n]
                known = ~np.isnan(exp)
                ctx.check(got.shape == exp.shape and np.allclose(got[known], exp[known], rtol=1e-9, atol=1e-9), 'accessor', lambda: f'{r.id} at {t}: {what} {got} expected {exp}')
            got = (mod.current_status, mod.max_production, mod.max_consumption, mod.production_marginal_cost, mod.absorption_marginal_cost, bool(mod.weak_grid))
            exp = (cur[3], r.m['imp'] * cur[3], r.m['exp'] * cur[3], cur[0], cur[1], bool((r.vals[:, 3] < 1).any()))
            ctx.check(all(abs(a - b) <= 1e-9 * max(1, abs(b)) for a, b in zip(got, exp)), 'accessor', lambda: f'{r.id} at {t}: status, limits, prices, weak {got} expected {exp}')
        elif r.kind in ('load', 'renewable'):
            what = dict(load=('current_load', 'max_consumption'), renewable=('current_renewable', 'max_production'))[r.kind]
            for w in what:
                ctx.close(getattr(mod, w), abs(cur[0]), 'accessor', f'{r.id} at {t}: {w}')
        ctx.count('accessors')

    def series(self, S, obs):
        for normalized in (False, True):
            ser = S.mg.state_series(normalized=normalized)
            sd = S.mg.state_dict(normalized=normalized)
            want = {(n, j, k): v for n, l in sd.items() for j, d in enumerate(l) for k, v in d.items()}
            S.ctx.check(list(ser.index) == list(want) and np.array_equal(ser.to_numpy(dtype=float), np.array(list(want.values()), dtype=float)),
                        'state-series', lambda: f'{ser} expected {want}')

    def start(self, S):
        self.state(S, S.observe())

    def step(self, S, rec):
        self.state(S, rec.post, rec.obs)
        if S.rng.integers(6) == 0:
            self.series(S, rec.post)

    def reset(self, S, rec):
        self.state(S, rec.post, rec.out)

    def other(self, S, op, pre, post):
        self.state(S, post)
