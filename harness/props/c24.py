"""C24 module views."""
import numpy as np

from pymgrid import Microgrid
from pymgrid.modules import BatteryModule, GensetModule, LoadModule, RenewableModule

from .. import gen
from ..drive import Session, do_step, choose_style

RULE = ('One case builds a random module mix in random order with random and colliding names and compares every view with the list '
        'given, at construction and after steps, resets, copies and reloads; a situation is the sequence of (kind, name).')
CASES = dict(quick=400, thorough=6000)
MIN = dict(list_likes=60, view_checks=700, rejected=600, name_clash=200, nonunique=60, attr_checks=3000, multi=150)
ASSUMPTIONS = ['names do not collide with attributes of the microgrid (load is reachable through modules only)']


def views(ctx, S):
    mg, ref = S.mg, S.ref
    mods = mg.modules
    flat = mods.to_list()
    ids = [tuple(m.name) for m in flat]
    ctx.check(sorted(ids) == sorted(r.id for r in ref.all), 'modules', lambda: f'{ids} expected {[r.id for r in ref.all]}')
    ctx.check(ids == [r.id for r in ref.all], 'order', lambda: f'{ids} expected {[r.id for r in ref.all]}')
    ctx.check(len(set(map(id, flat))) == len(flat), 'distinct', 'one module appears twice')
    ctx.check(len(mods) == len(flat), 'len', lambda: f'{len(mods)}')
    ctx.check(set(mods.names()) == set(ref.names), 'names', lambda: f'{mods.names()} expected {ref.names}')
    by_id = dict(zip(ids, flat))
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    d = mods.to_dict()
    ctx.check(set(d) == set(ref.names), 'dict', lambda: f'{list(d)}')
    for n in ref.names:
        want = [by_id[r.id] for r in ref.by_name[n]]
        ctx.check(same(list(d[n]), want) and same(list(mods[n]), want) and same(list(getattr(mods, n)), want), 'by-name', lambda: f'{n}')
        if n != 'load':
            ctx.check(same(list(getattr(mg, n)), want), 'by-attribute', lambda: f'{n}')
            ctx.check(n in dir(mg), 'dir', lambda: f'{n} not in dir')
        ctx.check(n in dir(mods), 'dir', lambda: f'{n} not in dir of modules')
        ctx.check([m.name[1] for m in want] == list(range(len(want))), 'numbering')
        if len(want) == 1:
            ctx.check(mods[n].item() is want[0], 'item')
        else:
            ctx.raises(ValueError, lambda: mods[n].item(), 'item', f'{n} of {len(want)}')
            ctx.count('multi')
    tups = mods.to_tuples()
    ctx.check([t[0] for t in tups] == [i[0] for i in ids] and same([t[1] for t in tups], flat), 'tuples', lambda: f'{[t[0] for t in tups]}')
    ctx.check(same(list(mods.iterlist()), flat) and same(list(mg.module_list), flat), 'iterlist')
    ctx.check([n for n, _ in mods.iterdict()] == list(d), 'iterdict')
    seen = {}
    for ffc in ('fixed', 'flex', 'controllable'):
        want = [r.id for r in ref.all if r.category[0] == ffc]
        for v in (getattr(mods, ffc), getattr(mg, ffc), mods[ffc]):
            got = [tuple(m.name) for m in v.to_list()] if hasattr(v, 'to_list') else [tuple(m.name) for m in v]
            ctx.check(got == want, 'category', lambda: f'{ffc}: {got} expected {want}')
            ctx.check(all(by_id[i] is m for i, m in zip(got, v.to_list() if hasattr(v, 'to_list') else v)), 'category-identity')
        for ss in ('sources', 'sinks', 'source_and_sinks'):
            want2 = [r.id for r in ref.all if r.category == (ffc, ss)]
            got = [tuple(m.name) for m in getattr(getattr(mods, ffc), ss).to_list()]
            got2 = [tuple(m.name) for m in getattr(getattr(mods, ss), ffc).to_list()]
            ctx.check(got == want2 and got2 == want2, 'subcategory', lambda: f'{ffc} {ss}: {got} {got2} expected {want2}')
            for i in got:
                seen[i] = seen.get(i, 0) + 1
    ctx.check(seen == {i: 1 for i in ids}, 'once', lambda: f'{seen}')
    for ss in ('sources', 'sinks', 'source_and_sinks'):
        want = sorted(r.id for r in ref.all if r.category[1] == ss)
        got = sorted(tuple(m.name) for m in getattr(mods, ss).to_list())
        ctx.check(got == want, 'direction', lambda: f'{ss}: {got} expected {want}')
    for r in ref.all:
        m = by_id[r.id]
        src, snk = r.category[1] != 'sinks', r.category[1] != 'sources'
        ctx.check(bool(m.is_source) == src and bool(m.is_sink) == snk, 'source-sink', lambda: f'{r.id}')
    ctx.check(mg.n_modules == len(flat), 'n-modules', lambda: f'{mg.n_modules}')
    ctx.count('view_checks')


def attrs(ctx, S):
    mg, ref, rng = S.mg, S.ref, S.rng
    names = ['current_step', 'module_type', 'raise_errors', 'initial_step', 'max_capacity', 'running_max_production', 'max_import', 'loss_load_cost',
             'marginal_cost', 'final_step', 'efficiency', 'soc', 'current_charge', 'cost_per_unit_co2', 'is_source', 'is_sink', 'battery_cost_cycle',
             'forecast_horizon', 'min_production', 'provided_energy_name', 'absorbed_energy_name', 'current_status', 'start_up_time']
    pick = [str(x) for x in rng.choice(names, 3, replace=False)]
    d = mg.modules.get_attrs(*pick, as_pandas=False)
    ctx.check(set(d) == set(ref.names), 'attrs', lambda: f'{list(d)}')
    for r in ref.all:
        m = S.module(r.id)
        for a in pick:
            want = getattr(m, a, NotImplemented)
            got = d[r.name][r.num][a]
            ctx.check(got is want or got == want or (got != got and want != want), 'attr-value', lambda: f'{r.id}.{a}: {got} expected {want}')
            ctx.count('attr_checks')
    for key in ('fixed', 'flex', 'controllable', 'sources', 'sinks', 'source_and_sinks'):
        if key not in mg.modules.keys():
            continue
        of = [r for r in ref.all if key in r.category]
        d = getattr(mg.modules, key).get_attrs(*pick, as_pandas=False)
        ctx.check({n: len(l) for n, l in d.items() if l} == {r.name: sum(q.name == r.name for q in of) for r in of}, 'attrs', lambda: f'{key}: {d}')
        for r in of:
            for a in pick:
                want, got = getattr(S.module(r.id), a, NotImplemented), d[r.name][r.num][a]
                ctx.check(got is want or got == want, 'attr-value', lambda: f'{key} {r.id}.{a}: {got} expected {want}')
    have = [a for a in pick if any(hasattr(S.module(r.id), a) for r in ref.all)]
    if have:
        df = mg.modules.get_attrs(*have)
        ctx.check(list(df.index) == [r.id for r in ref.all] and list(df.columns) == have, 'attr-frame', lambda: f'{list(df.index)} {list(df.columns)}')
        for r in ref.all:
            for a in have:
                want = getattr(S.module(r.id), a, NotImplemented)
                got = df.loc[r.id, a]
                ctx.check(got is want or got == want or (want is None and got != got), 'attr-frame', lambda: f'{r.id}.{a}: {got} expected {want}')
    missing = [a for a in pick if a not in have]
    if missing:
        ctx.raises(AttributeError, lambda: mg.modules.get_attrs(*missing), 'attr-missing', f'{missing}')
    one = mg.modules.get_attrs('current_step', unique=True, as_pandas=False)
    ctx.check(one == {'current_step': S.t}, 'attr-unique', lambda: f'{one} expected {S.t}')
    caps = {S.module(r.id).max_capacity for r in ref.all if r.kind == 'battery'}
    if len(caps) > 1:
        ctx.raises(ValueError, lambda: mg.modules.get_attrs('max_capacity', unique=True), 'attr-nonunique', f'{caps}')
    elif caps:
        ctx.check(mg.modules.get_attrs('max_capacity', unique=True)['max_capacity'] == caps.pop(), 'attr-unique')
    # an attribute that any of the modules have, all with one value or one of them with another
    having = [r for r in ref.all if rng.integers(4)]
    if having:
        odd = having[rng.integers(len(having))] if rng.integers(2) and len(having) > 1 else None
        value = lambda r: 7 if r is odd else 3
        for r in having:
            S.module(r.id).site = value(r)
        for view in (mg.modules, *(getattr(mg.modules, k) for k in ('fixed', 'flex', 'controllable') if k in mg.modules.keys())):
            of = {value(r) for r in having if any(x is S.module(r.id) for x in view.iterlist())}
            if len(of) > 1:
                ctx.raises(ValueError, lambda: view.get_attrs('site', unique=True), 'attr-nonunique', f'{of} {[r.id for r in having]}')
                ctx.count('nonunique')
            elif of:
                got = view.get_attrs('site', unique=True)
                ctx.check(got['site'] == of.pop(), 'attr-unique', lambda: f'{got}')
        mg.set_module_attr('site', 11)
        ctx.check(all(S.module(r.id).__dict__.get('site') == (11 if r in having else None) for r in ref.all), 'set-attr',
                  lambda: f"{[(r.id, S.module(r.id).__dict__.get('site')) for r in ref.all]} expected 11 of {[r.id for r in having]}")
        ctx.raises(AttributeError, lambda: mg.set_module_attr('no_such_attribute', 1), 'set-attr-missing', 'an attribute that no module has')
        for r in having:
            del S.module(r.id).site


def rejected(ctx, rng, spec):
    kw = gen.mg_kwargs(spec)
    mods = gen.module_list(spec)
    for bad in (object(), 5, 'load', None, {'load': 1}, np.zeros(3), ('x', 5), Microgrid):
        l = gen.module_list(spec)
        l.insert(int(rng.integers(len(l) + 1)), bad)
        ctx.raises((AssertionError, TypeError, NotImplementedError, AttributeError, ValueError), lambda: Microgrid(l, **kw), 'not-a-module', f'{bad}')
        ctx.count('rejected')
    kinds = [m['kind'] for m in spec['modules'] if m['kind'] != 'balancing']
    if len(set(kinds)) > 1:
        cats = {'load': 'a', 'renewable': 'b', 'battery': 'c', 'grid': 'c', 'genset': 'd'}
        i, j = [int(x) for x in rng.choice(len(spec['modules']), 2, replace=False)]
        a, b = spec['modules'][i], spec['modules'][j]
        if 'balancing' not in (a['kind'], b['kind']) and cats[a['kind']] != cats[b['kind']]:
            s2 = dict(spec, modules=[dict(m) for m in spec['modules']])
            s2['modules'][i]['name'] = s2['modules'][j]['name'] = 'same'
            ctx.raises(NameError, lambda: Microgrid(gen.module_list(s2), **kw), 'name-clash', f'{a["kind"]} and {b["kind"]}')
            ctx.count('name_clash')


def run_case(ctx, rng, index):
    spec = gen.spec(rng, crowd=True, max_each=4, T=int(rng.choice([5, 10])), user_fc=False, custom=False, callable_cost=False)
    rng.shuffle(spec['modules'])
    ctx.describe(spec)
    if index % 4 == 0:          # any list-like of modules
        form = [tuple, lambda l: np.array(l + [None], dtype=object)[:-1] if not any(isinstance(x, tuple) for x in l) else tuple(l)][rng.integers(2)]
        S = Session(ctx, rng, spec, mg=gen.build(spec, modules=form(gen.module_list(spec))))
        ctx.count('list_likes')
    else:
        S = Session(ctx, rng, spec)
    ctx.seen(tuple((r.kind, r.name) for r in S.ref.given))
    views(ctx, S)
    attrs(ctx, S)
    rejected(ctx, rng, spec)
    given = {}
    for m, r in zip(spec['modules'], S.ref.given):      # numbered in the order given: parameters identify the module
        mod = S.module(r.id)
        if r.kind == 'battery':
            ctx.check((mod.max_capacity, mod.min_capacity, mod.efficiency) == (m['max'], m['min'], m['eff']), 'identity', lambda: f'{r.id}')
        elif r.kind == 'genset':
            ctx.check((mod.running_max_production, mod.start_up_time) == (m['max'], m['up']), 'identity', lambda: f'{r.id}')
        elif r.kind == 'grid':
            ctx.check((mod.max_import, mod.max_export) == (m['imp'], m['exp']), 'identity', lambda: f'{r.id}')
        elif r.is_ts:
            ctx.check(abs(np.array(mod.time_series, dtype=float).reshape(-1) - r.vals[:, 0]).max() <= 1e-12 * spec['scale'], 'identity', lambda: f'{r.id}')
    how = str(rng.choice(['step', 'deepcopy', 'yaml', 'reset']))
    if how == 'step':
        for _ in range(3):
            if S.can_step():
                do_step(S, style=choose_style(S))
    elif how == 'deepcopy':
        import copy
        S.mg = copy.deepcopy(S.mg)
    elif how == 'yaml':
        S.mg = Microgrid.load(S.mg.dump())
    else:
        S.mg.reset()
    views(ctx, S)
    if S.can_step():
        attrs(ctx, S)
