"""Reference of priority-list deployment, shared by the discrete environment and rule-based control."""
import itertools


def expected_lists(ref, remove_redundant):
    """All deployment orders as tuples of (module id, action)."""
    per = []
    for r in ref.controllable:
        acts = (0, 1) if r.kind == 'genset' else (0,)
        if r.kind == 'genset' and remove_redundant and r.m['min'] == 0:
            acts = (1,)
        per.append([(r.id, a) for a in acts])
    return {p for combo in itertools.product(*per) for p in itertools.permutations(combo)}


def deploy(ref, pre, t, order, note=None):
    """(control, whether a remainder was at the tolerance itself) of deploying modules in an order of (id, action)."""
    remaining = sum(-r.vals[t, 0] for r in ref.fixed) - sum(r.vals[t, 0] for r in ref.flex if r.kind == 'renewable')
    control = {n: [None] * len(ref.by_name[n]) for n in ref.control_names()}
    at_tolerance = False
    for rid, act in order:
        r = ref.by_id[rid]
        at_tolerance |= .9e-4 < abs(remaining) < 1.1e-4
        status = r.genset_next(pre[rid], act)['current_status'] if r.kind == 'genset' else None
        lo, hi, sink = r.limits(pre[rid], t, status)
        if abs(remaining) <= 1e-4:
            e = 0.0
        elif remaining > 0:
            e = min(max(remaining, lo), hi)
        else:
            e = -min(-remaining, sink) if sink is not None else 0.0
        if note:
            note(r, act, remaining, e, lo, hi)
        control[r.name][r.num] = [float(act), e] if r.kind == 'genset' else e
        remaining -= e
    return control, at_tolerance


def marginal_cost(r, t):
    from . import gen
    m = r.m
    if r.kind == 'battery':
        return m['cost']
    if r.kind == 'grid':
        return r.value(t)[0]
    fuel = gen.COSTS[m['cost']](1.0) if isinstance(m['cost'], str) else m['cost']
    return fuel + m['co2cost'] * m['co2']
