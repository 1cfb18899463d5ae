"""C09 normalization and sampling."""
import copy

import numpy as np

from .. import gen
from ..drive import drive, energies, do_step, make_control, queries
from ..monitors import Obs

RULE = ('One case is one random microgrid driven through a random history; between steps bounds, (de)normalization of random and '
        'extreme points, paired normalized/unnormalized runs and sampled actions are checked; a situation is (kind, check, degenerate).')
CASES = dict(quick=320, thorough=5000)
MIN = dict(steps=3000, pairs=600, samples=5000, strict_samples=5000, points=10000, space_points=1500, observation_points=3000)
ASSUMPTIONS = ['a space of zero width is normalized to 0 (denormalizing 1 in it is not specified)',
               'bounds of the balancing module are infinite and not normalized']


class Norm:
    def affine(self, S, r, which, lo, hi):
        ctx, rng, m = S.ctx, S.rng, S.module(r.id)
        kw = dict(act=which == 'act', obs=which == 'obs')
        space = m.action_space if which == 'act' else m.observation_space
        n = len(lo)
        tol = max(np.abs(lo).max(), np.abs(hi).max(), 1e-300)
        ctx.arr_close(space.unnormalized.low, lo, f'{which}-low', f'{r.id} {which} low', scale=tol)
        ctx.arr_close(space.unnormalized.high, hi, f'{which}-high', f'{r.id} {which} high', scale=tol)
        spread = np.where(hi > lo, hi - lo, 1.0)
        for z in (np.zeros(n), np.ones(n), rng.uniform(size=n), (rng.uniform(size=n) < .5).astype(float)):
            z = np.where(hi > lo, z, 0.0)
            v = lo + spread * z
            arg = float(v[0]) if n == 1 and rng.integers(2) else v
            got = m.to_normalized(arg, **kw)
            cond = 1e-9 * np.maximum(1.0, np.maximum(np.abs(lo), np.abs(hi)) / spread)
            ctx.check(np.shape(np.atleast_1d(got)) == (n,) and (np.abs(np.atleast_1d(got) - z) <= cond).all(), f'{which}-normalize',
                      lambda: f'{r.id} {which} {arg} in [{lo}, {hi}] -> {got}, expected {z}')
            arg = float(z[0]) if n == 1 and rng.integers(2) else z
            back = m.from_normalized(arg, **kw)
            ctx.arr_close(np.atleast_1d(back), v, f'{which}-denormalize', f'{r.id} {which} {arg}', scale=tol)
            ctx.count('points')
        ctx.seen('affine', r.kind, which, bool((hi == lo).any()))

    def other(self, S, op, pre, post):
        self.check(S)

    def start(self, S):
        self.check(S)

    def check(self, S):
        ctx, rng = S.ctx, S.rng
        for r in S.ref.all:
            if r.kind == 'balancing':
                space = S.module(r.id).action_space.unnormalized
                ctx.check((space.low == -np.inf).all() and (space.high == np.inf).all(), 'balancing-bounds', lambda: f'{r.id}: {space}')
                continue
            if r.kind != 'load':
                self.affine(S, r, 'act', *r.act_bounds())
            self.affine(S, r, 'obs', *r.obs_bounds())
        # whole microgrid
        ctl = S.ref.controllable
        z = {n: [rng.uniform(size=2) if r.kind == 'genset' else np.array([rng.uniform()]) for r in S.ref.by_name[n]]
             for n in S.ref.control_names()}
        den = S.mg.from_normalized(z, act=True)
        space = S.mg.microgrid_action_space
        den2 = space.denormalize(z) if z else {}
        back = S.mg.to_normalized(den, act=True)
        back2 = space.normalize({n: [np.atleast_1d(x) for x in l] for n, l in den.items()}) if z else {}
        ctx.check(set(den) == set(z) and set(den2) == set(z), 'dict-keys', lambda: f'{den} {den2}')
        for r in ctl:
            lo, hi = r.act_bounds()
            spread = np.where(hi > lo, hi - lo, 1.0)
            want = lo + spread * z[r.name][r.num]
            cond = 1e-9 * np.maximum(1.0, np.maximum(np.abs(lo), np.abs(hi)) / spread)
            for d in (den, den2):
                ctx.arr_close(np.atleast_1d(d[r.name][r.num]), want, 'dict-denormalize', f'{r.id}', scale=max(np.abs(lo).max(), np.abs(hi).max()))
            for b in (back, back2):
                ctx.check((np.abs(np.atleast_1d(b[r.name][r.num]) - z[r.name][r.num]) <= cond).all(), 'dict-normalize',
                          lambda: f'{r.id} {b[r.name][r.num]} expected {z[r.name][r.num]}')
            ctx.count('space_points')
        self.observations(S)

    def observations(self, S):
        ctx, rng = S.ctx, S.rng
        rs = [r for r in S.ref.all if r.kind != 'balancing']
        names = list(dict.fromkeys(r.name for r in rs))
        names = [n for n in names if all(r.kind != 'balancing' for r in S.ref.by_name[n])]
        z = {n: [rng.uniform(size=len(r.obs_bounds()[0])) for r in S.ref.by_name[n]] for n in names}
        den = S.mg.from_normalized(z, obs=True)
        back = S.mg.to_normalized(den, obs=True)
        ctx.check(set(den) == set(z) == set(back), 'dict-keys', lambda: f'{set(den)} {set(back)}')
        for n in names:
            for r in S.ref.by_name[n]:
                lo, hi = r.obs_bounds()
                spread = np.where(hi > lo, hi - lo, 1.0)
                want = lo + spread * z[n][r.num]
                cond = 1e-9 * np.maximum(1.0, np.maximum(np.abs(lo), np.abs(hi)) / spread)
                ctx.arr_close(np.atleast_1d(den[n][r.num]), want, 'dict-denormalize', f'{r.id} observation', scale=max(np.abs(lo).max(), np.abs(hi).max()))
                ctx.check((np.abs(np.atleast_1d(back[n][r.num]) - z[n][r.num]) <= cond).all(), 'dict-normalize', lambda: f'{r.id} observation {back[n][r.num]} expected {z[n][r.num]}')
                ctx.count('observation_points')
        for what, space in (('action', S.mg.microgrid_action_space), ('observation', S.mg.microgrid_observation_space)):
            of = S.ref.controllable if what == 'action' else S.ref.all
            want = {r.name: len(S.ref.by_name[r.name]) for r in of}
            for sub in (space.normalized, space.unnormalized):
                ctx.check({n: len(tup) for n, tup in sub.items()} == want, 'space-names', lambda: f'{what} space of {list(sub)}, expected {want}')
            for n, tup in space.normalized.items():
                for j, b in enumerate(tup):
                    ctx.check((b.low == 0).all() and (b.high == 1).all(), 'unit-space', lambda: f'normalized {what} space of {n} {j}: {b.low} to {b.high}')

    def sampling(self, S, pre):
        ctx = S.ctx
        for strict in (False, True):
            act = S.mg.sample_action(strict_bound=strict)
            ctx.check(set(act) == set(S.ref.control_names()), 'sample-keys', lambda: f'{set(act)} expected {S.ref.control_names()}')
            for r in S.ref.controllable:
                ctx.check(len(act[r.name]) == len(S.ref.by_name[r.name]), 'sample-length')
                a = np.atleast_1d(act[r.name][r.num]).astype(float)
                ctx.check(a.shape == ((2,) if r.kind == 'genset' else (1,)) and (a >= -1e-9).all() and (a <= 1 + 1e-9).all(), 'sample-range',
                          lambda: f'{r.id} sampled {a}')
                ctx.count('samples')
                if strict and S.can_step():
                    lo, hi = r.act_bounds()
                    e = lo[-1] + (hi[-1] - lo[-1] or 1.0) * a[-1]
                    _, up, down = r.limits(pre.state[r.id], S.t)
                    tol = 1e-9 * max(abs(lo[-1]), abs(hi[-1]), 1e-300)
                    ctx.check(-(down or 0.0) - tol <= e <= up + tol, 'strict-sample',
                              lambda: f'{r.id} strictly sampled {e} outside [{-(down or 0.0)}, {up}] in {pre.state[r.id]}')
                    ctx.count('strict_samples')
                    ctx.seen('strict', r.kind, up == 0, (down or 0) == 0)

        flexible = [r for r in S.ref.all if r.kind in ('renewable', 'balancing')]
        act = S.mg.sample_action(strict_bound=bool(S.rng.integers(2)) and S.can_step(), sample_flex_modules=True)
        empty, empty_all = S.mg.get_empty_action(), S.mg.get_empty_action(sample_flex_modules=True)
        sizes = {n: len(S.ref.by_name[n]) for n in S.ref.control_names()}
        all_sizes = dict(sizes, **{r.name: len(S.ref.by_name[r.name]) for r in flexible})
        for what, got, want in (('sample with flexible modules', act, all_sizes), ('empty action', empty, sizes), ('empty action with flexible modules', empty_all, all_sizes)):
            ctx.check({n: len(l) for n, l in got.items()} == want, 'sample-keys', lambda: f'{what}: {got} expected {want}')
        ctx.check(all(x is None for d in (empty, empty_all) for l in d.values() for x in l), 'empty-action', lambda: f'{empty_all}')
        for n, l in act.items():
            ctx.check(all(((np.atleast_1d(x) >= -1e-9) & (np.atleast_1d(x) <= 1 + 1e-9)).all() for x in l), 'sample-range', lambda: f'{n} sampled {l}')

    def before(self, S):
        pre = S.observe()
        if S.rng.integers(3) == 0:
            self.sampling(S, pre)
        if S.rng.integers(4) or S.raising:
            return
        # a normalized action and its denormalized counterpart
        control, _ = make_control(S, pre, S.rng.choice(['rand', 'extreme', 'sample', 'strict', 'full_up', 'idle']))
        control = {n: (list(v) if hasattr(v, '__len__') else [v]) for n, v in control.items()}
        A, B = copy.deepcopy(S.mg), copy.deepcopy(S.mg)
        rs = np.random.get_state()
        _, ra, da, ia = A.run(control, normalized=True)
        np.random.set_state(rs)
        _, rb, db, ib = B.run(S.mg.from_normalized(control, act=True), normalized=False)
        np.random.set_state(rs)
        for r in S.ref.all:
            for x, y in zip(energies(ia, r), energies(ib, r)):
                S.ctx.close(x, y, 'pair-energy', f'{r.id} normalized vs unnormalized, control {control}', scale=S.ref.escale)
        sa, sb = A.state_series(), B.state_series()
        S.ctx.check(list(sa.index) == list(sb.index), 'pair-state')
        S.ctx.arr_close(sa.values, sb.values, 'pair-state', 'state after normalized vs unnormalized action', scale=S.ref.escale)
        S.ctx.check(da == db, 'pair-done')
        S.ctx.count('pairs')


def run_case(ctx, rng, index):
    spec = gen.spec(rng, crowd=True, long=True)
    ctx.describe(spec)
    drive(ctx, rng, spec, [Norm()], n_ops=100 if ctx.thorough else 40, ops=dict(forecaster=.05, series=.04))
