"""C21 infeasible and malformed requests."""
import copy
import warnings

import numpy as np

from .. import gen
from ..drive import Session, do_step, drive, energies, make_control

RULE = ('One case drives a random microgrid with requests around and beyond its limits; each executed request is compared with the '
        'limits in the state before it. With modules that raise errors, each step is first tried on copies with one request '
        'pushed outside its limits. A situation is (kind, direction, above, below or within, raising).')
CASES = dict(quick=400, thorough=6000)
MIN = dict(requests=9000, clipped=1500, clipped_up=150, exact=2500, rejected=500, accepted=800, wrong_direction=300, missing=150, absent=30, few=30, many=30, unknown=150, bad_goal=150, clipped_among_raising=100)
ASSUMPTIONS = ['a request within 1e-9 (relative) of a limit may be treated either way by modules that raise errors']


class Clip:
    def step(self, S, rec):
        ctx = S.ctx
        for r in S.ref.controllable:
            e = rec.exp['modules'][r.id]
            p, a = energies(rec.info, r)
            lo, hi, sink = e['limits']
            size = max(abs(e['request']), hi, sink or 0.0) if e['infeasible'] else max(abs(b) for b in r.act_bounds()[1].tolist() + r.act_bounds()[0].tolist())
            what = f'{r.id} asked for {e["request"]} with limits {e["limits"]}'
            ctx.close(p, e['provided'], 'provided', f'{what}: provides', scale=min(size, S.ref.escale))
            ctx.close(a, e['absorbed'], 'absorbed', f'{what}: absorbs', scale=min(size, S.ref.escale))
            ctx.count('requests')
            ctx.count('clipped', int(e['infeasible']))
            ctx.count('clipped_up', int(e['request'] < lo and e['request'] >= 0))
            ctx.count('exact', int(not e['infeasible']))
            ctx.seen(r.kind, e['request'] > 0, e['request'] < 0, e['request'] > hi, e['request'] < lo, S.raising, hi == 0, lo > 0)

    def before(self, S):
        if S.rng.integers(3):
            return
        ctx, rng = S.ctx, S.rng
        pre, t = S.observe(), S.t
        control, norm = make_control(S, pre, 'feasible')
        control = {n: (list(v) if hasattr(v, '__len__') else [v]) for n, v in control.items()}

        def attempt(c):
            state = np.random.get_state()
            try:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    out = copy.deepcopy(S.mg).run(c, normalized=False)
                return out, [str(x.message) for x in w]
            finally:
                np.random.set_state(state)
        out, w = attempt(control)       # a feasible request is never an error
        ctx.check(not any('gnoring' in x for x in w), 'warned', lambda: f'warned without unknown names: {w}')
        ctx.count('accepted')
        k = rng.integers(5)
        if k == 0 and control:
            c = dict(control)
            name = list(c)[rng.integers(len(c))]
            how = rng.choice(['absent', 'few', 'many'])
            if how == 'absent':
                del c[name]
            elif how == 'few':
                c[name] = c[name][:-1]
            else:
                c[name] = c[name] + [c[name][-1]]
            m = copy.deepcopy(S.mg)
            state = np.random.get_state()
            ctx.raises(ValueError, lambda: m.run(c, normalized=False), 'missing-control', f'control for {name}: {how} values')
            # the rejected control has changed nothing
            ctx.check([module.current_step for module in m.module_list] == [module.current_step for module in S.mg.module_list], 'rejected-stepped',
                      lambda: f'modules stepped: {[module.current_step for module in m.module_list]}')
            ctx.check([len(x) for x in m.log.to_dict('list').values()] == [len(x) for x in S.mg.log.to_dict('list').values()], 'rejected-stepped', lambda: 'a rejected control was logged')
            again = m.run(control, normalized=False)
            np.random.set_state(state)
            for r in S.ref.all:
                ctx.check(energies(out[3], r) == energies(again[3], r), 'rejected-stepped', lambda: f'{r.id} after a rejected control: {energies(again[3], r)} instead of {energies(out[3], r)}')
            ctx.count('missing')
            ctx.count(how)
        elif k == 1:
            other = str(rng.choice(['no_such_module', 'load', 'Battery', 'balancing']))
            c = {**control, other: [0.3]} if other not in control else control
            if c is not control:
                again, w = attempt(c)
                ctx.check(any(other in x for x in w), 'unknown-name', lambda: f'no warning about {other}: {w}')
                for r in S.ref.all:
                    ctx.check(energies(out[3], r) == energies(again[3], r), 'unknown-name', lambda: f'{other} changed {r.id}')
                ctx.count('unknown')
        elif k == 2:
            for r in S.ref.controllable:
                if r.kind == 'genset':
                    g = float(rng.choice([-1.0, 1.5, 2.0, -.01, 1.001]))
                    c = {n: list(v) for n, v in control.items()}
                    c[r.name][r.num] = np.array([g, 0.0])
                    ctx.raises((ValueError, AssertionError), lambda: attempt(c), 'bad-goal', f'{r.id} goal {g}')
                    ctx.count('bad_goal')
        elif k == 3:
            for r in S.ref.all:
                e = float(rng.uniform(.01, 1)) * S.ref.spec['scale']
                m = copy.deepcopy(S.module(r.id))
                if r.kind == 'load':
                    ctx.raises(AssertionError, lambda: m.step(e, normalized=False), 'wrong-direction', f'{r.id} asked to provide {e}')
                elif r.kind == 'renewable':
                    ctx.raises(AssertionError, lambda: m.step(-e, normalized=False), 'wrong-direction', f'{r.id} asked to absorb {e}')
                elif r.kind == 'genset':
                    ctx.raises(AssertionError, lambda: m.step(np.array([float(rng.integers(2)), -e]), normalized=False), 'wrong-direction',
                               f'{r.id} asked to absorb {e}')
                else:
                    continue
                ctx.count('wrong_direction')
        if not S.raising:
            return
        for r in S.ref.controllable:
            lo_a, hi_a = (b[-1] for b in r.act_bounds())
            goal = float(rng.integers(2))
            status = r.genset_next(pre.state[r.id], int(goal))['current_status'] if r.kind == 'genset' else None
            lo, hi, sink = r.limits(pre.state[r.id], t, status)
            over = hi + max(hi, hi_a, S.ref.spec['scale'] * .01) * float(rng.choice([1e-5, .1, 3.0]))
            bad = [over]
            if sink is not None:
                bad.append(-(sink + max(sink, -lo_a, S.ref.spec['scale'] * .01) * float(rng.choice([1e-5, .1, 3.0]))))
            if lo > 0:
                bad += [lo * (1 - 1e-5), lo * .5, 0.0]
            for e in bad:
                c = {n: list(v) for n, v in control.items()}
                c[r.name][r.num] = np.array([goal, e]) if r.kind == 'genset' else e
                if not r.m['raise_errors']:  # others raise errors, this one clips
                    got = energies(attempt(c)[0][3], r)
                    want = hi if e > hi else lo if e >= 0 else -sink
                    ctx.close(got[0] - got[1], want, 'clipped-among-raising', f'{r.id} asked for {e} with limits {(lo, hi, sink)}', scale=max(hi, sink or 0, abs(e)))
                    ctx.count('clipped_among_raising')
                    continue
                ctx.raises(ValueError, lambda: attempt(c), 'not-rejected', f'{r.id} asked for {e} with limits {(lo, hi, sink)}')
                ctx.count('rejected')
                ctx.seen('reject', r.kind, e > hi, e < 0, 0 <= e < lo)


def run_case(ctx, rng, index):
    spec = gen.spec(rng, raise_errors=['mixed', False, False, True, False, False][index % 6], T=int(rng.choice([5, 10, 26])), need=('load', ['genset', 'battery', 'grid', 'renewable'][index % 4]))
    ctx.describe(spec)
    drive(ctx, rng, spec, [Clip()], n_ops=80 if ctx.thorough else 30, ops=dict(yaml=.01, reset=.06, series=.02))
