"""Random and hostile microgrid specifications, and how to build them with the public API.

A spec is a plain JSON-able dict: the oracle (ref.py) reads the spec, never pymgrid's own copy of it.
"""
import numpy as np
import pandas as pd

from pymgrid import Microgrid
from pymgrid.microgrid.reward_shaping import PVCurtailmentShaper, BatteryDischargeShaper
from pymgrid.microgrid.trajectory import (DeterministicTrajectory, StochasticTrajectory,
                                          FixedLengthStochasticTrajectory)
from pymgrid.modules import (BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule,
                             UnbalancedEnergyModule)


# ---- registries of callables a spec may name -------------------------------------------------------------------------
def cost_linear(p):
    return 0.4 * p


def cost_quadratic(p):
    return 0.3 * p + 0.002 * p * p


def cost_no_load(p):
    return 1.5 + 0.2 * p if p > 0 else 0.0


def cost_standing(p):
    return 2.0 + 0.2 * p


def tm_lossy(external_energy_change, efficiency, **kw):
    """Charges at efficiency**2, discharges at efficiency."""
    if external_energy_change < 0:
        return external_energy_change / efficiency
    return external_energy_change * efficiency * efficiency


def tm_state(external_energy_change, efficiency, max_capacity, state_dict, **kw):
    """Charging gets less effective as the battery fills up."""
    if external_energy_change < 0:
        return external_energy_change / efficiency
    return external_energy_change * efficiency * (1 - 0.5 * state_dict['current_charge'] / max_capacity)


def tm_all(external_energy_change, min_capacity, max_capacity, max_charge, max_discharge, efficiency, battery_cost_cycle, max_production,
           max_consumption, state_dict, **kw):
    """Depends on everything that transition models are documented to be given."""
    lim = max_production if external_energy_change < 0 else max_consumption
    parts = [state_dict['current_charge'] / max_capacity, 1 - state_dict['soc'], min_capacity / max_capacity,
             min(abs(external_energy_change) / lim, 1.0) if lim > 0 else 0.0, max_charge / (max_charge + max_discharge + 1e-300),
             battery_cost_cycle / (1 + battery_cost_cycle)]
    share = 1 - 0.5 * sum(parts) / len(parts)
    return external_energy_change / efficiency * share if external_energy_change < 0 else external_energy_change * efficiency * share


def fc_half(val_c, val_c_n, n):
    return 0.5 * val_c_n


def fc_double(val_c, val_c_n, n):
    return 2.0 * val_c_n


def fc_blend(val_c, val_c_n, n):
    return 0.5 * val_c_n + 0.5 * val_c


def fc_scalar(val_c, val_c_n, n):
    v = float(np.asarray(val_c_n).item())
    return v * (1.0 + 0.1 * n)


def fc_scalar_blend(val_c, val_c_n, n):
    return (float(np.asarray(val_c_n).item()) * n + float(np.asarray(val_c).item())) / (n + 1)


def fc_list(val_c, val_c_n, n):
    return (0.7 * np.asarray(val_c_n) + 0.2 * np.asarray(val_c)).tolist()


def fc_steps(val_c, val_c_n, n):
    """Depends on the position of each value."""
    v = np.asarray(val_c_n)
    return v * (1 + np.arange(len(v)).reshape((-1,) + (1,) * (v.ndim - 1)) / 10)


COSTS = dict(linear=cost_linear, quadratic=cost_quadratic, no_load=cost_no_load, standing=cost_standing)
TMS = dict(lossy=tm_lossy, state=tm_state, all=tm_all)
FCS = dict(half=fc_half, double=fc_double, blend=fc_blend, scalar=fc_scalar, scalar_blend=fc_scalar_blend, list=fc_list, steps=fc_steps)
SCALAR_FCS = ('scalar', 'scalar_blend')


# ---- series ----------------------------------------------------------------------------------------------------------
def series(rng, T, scale, kinds=None):
    kind = rng.choice(kinds or ['const', 'uniform', 'uniform', 'day', 'day', 'spike', 'sparse', 'ramp', 'zero', 'steps'])
    if kind == 'const':
        s = np.full(T, rng.uniform(0.1, 1))
    elif kind == 'zero':
        s = np.zeros(T)
    elif kind == 'uniform':
        s = rng.uniform(0, 1, T)
    elif kind == 'day':
        s = np.maximum(0, np.sin(np.arange(T) * 2 * np.pi / 24 + rng.uniform(0, 6))) + rng.uniform(0, .05, T) * rng.integers(0, 2)
    elif kind == 'spike':
        s = rng.uniform(0, .1, T)
        s[rng.integers(0, T, max(1, T // 8))] = 1.0
    elif kind == 'sparse':
        s = rng.uniform(0, 1, T) * (rng.uniform(0, 1, T) < .5)
    elif kind == 'ramp':
        s = np.linspace(0.05, 1, T) if rng.integers(2) else np.linspace(1, 0.05, T)
    else:
        s = np.round(rng.uniform(0, 4, T)) / 4
    return [float(x) for x in s * scale]


def grid_ts(rng, T, cols=None):
    cols = cols or int(rng.choice([3, 4, 4]))
    imp = np.array(series(rng, T, rng.choice([0.3, 1.0, 5.0]), ['const', 'uniform', 'steps', 'day', 'ramp']))
    kind = rng.integers(4)
    exp = np.zeros(T) if kind == 0 else imp * .5 if kind == 1 else rng.uniform(0, 1, T)
    co2 = np.zeros(T) if rng.integers(3) == 0 else rng.uniform(0, .6, T)
    out = [imp, exp, co2]
    if cols == 4:
        k = rng.integers(4)
        st = np.ones(T) if k == 0 else (rng.uniform(0, 1, T) < (.6 if k == 1 else .9)).astype(float)
        if k == 3:
            a = int(rng.integers(0, T))
            st[a:a + int(rng.integers(1, 6))] = 0
        out.append(st)
    return np.stack(out, 1).tolist()


def forecaster(rng, T, user=True, noise=True, p_none=.35):
    u = rng.uniform()
    if u < p_none or T < 4:
        return None
    h = int(rng.choice([1, 2, 3, 5, 8, 23, 24, 30]))
    if u < p_none + .35 or not (user or noise):
        return dict(f='oracle', h=h, iu=False, rel=False)
    if noise and (u < .9 or not user):
        return dict(f=float(rng.choice([0.0, 0.05, 0.5, 3.0])), h=h, iu=bool(rng.integers(2)), rel=bool(rng.integers(2)))
    return dict(f=str(rng.choice(list(FCS))), h=h, iu=False, rel=False)


# ---- modules ---------------------------------------------------------------------------------------------------------
def battery(rng, scale, custom=False, raise_errors=False):
    mx = float(scale * rng.choice([1, 2, 5, 0.3]) * rng.uniform(.5, 1.5))
    mn = float(rng.choice([0.0, 0.1, 0.2, 0.5]) * mx)
    k = rng.integers(5)
    init = [mn, mx, (mn + mx) / 2, float(rng.uniform(mn, mx)), float(rng.uniform(mn, mx))][k]
    eff = float(rng.choice([1.0, 0.9, 0.95, 0.5, rng.uniform(.3, 1.0)]))
    # a battery may fill up or run empty in one step, or need many
    pc, pd_ = [float(mx * rng.choice([.05, .2, .5, 1.0, 3.0, .333])) for _ in range(2)]
    if rng.integers(2):
        pd_ = pc
    return dict(kind='battery', min=mn, max=mx, charge=pc, discharge=pd_, eff=eff,
                cost=float(rng.choice([0.0, 0.02, 0.5])), init=init, init_as=str(rng.choice(['charge', 'soc'])),
                tm=(str(rng.choice(list(TMS))) if custom and rng.integers(4) == 0 else None), raise_errors=raise_errors)


def genset(rng, scale, raise_errors=False, times=True, callable_cost=True):
    mx = float(scale * rng.uniform(.2, 1.5))
    mn = float(rng.choice([0.0, 0.05, 0.3, 0.7, 1.0]) * mx)
    cost = float(rng.choice([0.0, 0.4, 1.3]))
    if callable_cost and rng.integers(4) == 0:
        cost = str(rng.choice(list(COSTS)))
    return dict(kind='genset', min=mn, max=mx, cost=cost, co2=float(rng.choice([0, 2.0, .5])),
                co2cost=float(rng.choice([0, .1, 1.0])),
                up=int(rng.choice([0, 0, 1, 2, 3, 5])) if times else 0, down=int(rng.choice([0, 0, 1, 2, 4])) if times else 0,
                abort=bool(rng.integers(3) > 0) if times else True, init_on=bool(rng.integers(2)),
                raise_errors=raise_errors)


def grid(rng, T, scale, raise_errors=False, fc=None, cols=None):
    mi, me = [float(scale * rng.choice([0.0, 0.3, 1.0, 2.0, rng.uniform(0, 3)], p=[.08, .2, .3, .2, .22])) for _ in range(2)]
    return dict(kind='grid', imp=mi, exp=me, ts=grid_ts(rng, T, cols), co2cost=float(rng.choice([0, .1, 2.0])), fc=fc,
                form=str(rng.choice(['array', 'df', 'dated'])), raise_errors=raise_errors)


NAMES = dict(load=['load', 'demand', 'ev_load'], renewable=['renewable', 'pv', 'wind'], battery=['battery', 'store'],
             genset=['genset', 'diesel'], grid=['grid', 'utility'], balancing=['balancing', 'unbalanced_energy'])


def spec(rng, T=None, scale=None, n=None, forecasts=True, user_fc=True, noise=True, raise_errors=None, custom=True,
         balancing=True, window=True, shaper=False, traj=False, times=True, callable_cost=True, kinds=None, names=True,
         need=('load',), fc_common=None, max_each=None, crowd=False, long=False):
    """A random microgrid specification."""
    most, long = 1100 if long is True else long, long and rng.integers(50) == 0  # a history of hundreds of steps
    if long:
        T, max_each, window, crowd = min(most, int(rng.choice([110, 180, 300, 600, 1100], p=[.25, .25, .25, .15, .1]))), 1, False, False
    T = T or int(rng.choice([1, 2, 3, 5, 10, 26, 40, 60], p=[.03, .04, .13, .18, .2, .2, .12, .1]))
    scale = scale or float(rng.choice([1.0, 50.0, 1e-3, 1e5, 10.0], p=[.3, .35, .1, .1, .15]))
    if raise_errors is None:
        raise_errors = [True, 'mixed', False, False, False, False, False, False, False, False][int(rng.integers(10))]
    raises = lambda: bool(rng.integers(2)) if raise_errors == 'mixed' else raise_errors
    fc = lambda: (fc_common if fc_common is not None else (forecaster(rng, T, user_fc, noise) if forecasts else None))
    form = lambda: str(rng.choice(['list', 'array', 'col', 'df', 'series', 'dated', 'dated_df']))
    max_each = max_each or int(rng.choice([2, 2, 2, 3]))
    mods = []
    crowd = str(rng.choice(['load', 'renewable', 'battery', 'genset', 'grid'])) if crowd and rng.integers(25) == 0 else None
    for kind in kinds or ['load', 'renewable', 'battery', 'genset', 'grid']:
        p0 = {'load': .05, 'renewable': .2, 'battery': .2, 'genset': .4, 'grid': .3}[kind]
        k = 0 if rng.uniform() < p0 else 1 if rng.uniform() < .7 else int(rng.integers(1, max_each + 1))
        if kind in need:
            k = max(k, 1)
        if kind == crowd:
            k = int(rng.integers(11, 14))  # as many as take two digits to number
        for _ in range(k):
            if kind in ('load', 'renewable'):
                f = fc()
                m = dict(kind=kind, ts=series(rng, T, scale * rng.uniform(.2, 1.5)), neg=bool(rng.integers(3) == 0), form=form(),
                         fc=f, raise_errors=raises())
                if scale >= 10 and rng.integers(10) == 0:  # whole numbers
                    m.update(ts=[float(round(x)) for x in m['ts']], form=str(rng.choice(['ints', 'int_list', 'int_df'])))
            elif kind == 'battery':
                m = battery(rng, scale, custom, raises())
            elif kind == 'genset':
                m = genset(rng, scale, raises(), times, callable_cost)
            else:
                f = fc()
                if f and isinstance(f['f'], str) and f['f'] in SCALAR_FCS:
                    f = dict(f, f='half')
                m = grid(rng, T, scale, raises(), f)
                if rng.integers(12) == 0:
                    m.update(ts=np.round(np.array(m['ts']) * 2).clip(0, [99, 99, 99, 1][:len(m['ts'][0])]).tolist(), form='ints')
            m['np'] = bool(rng.integers(6) == 0)  # parameters given as numpy scalars
            m['name'] = None
            if kind != crowd and names and rng.integers(3) == 0:
                m['name'] = str(rng.choice(NAMES[kind]))
            mods.append(m)
    if rng.integers(2):
        mods = [mods[i] for i in rng.permutation(len(mods))]
    s = dict(T=T, long=bool(long), scale=scale, modules=mods, llc=float(rng.choice([10.0, 1.0, 0.0, 100.0])),
             ogc=float(rng.choice([2.0, 0.0, 1.0])), unbalanced='default', shaper=None, traj=None, window=None, ctor_initial=0, ctor_final=None)
    if balancing is False:
        s['unbalanced'] = 'none'
    elif rng.integers(3) == 0:
        s['unbalanced'] = 'explicit'
        # the balancing module may come anywhere in the list
        s['modules'].insert(int(rng.integers(len(mods) + 1)),
                            dict(kind='balancing', name=(str(rng.choice(NAMES['balancing'])) if rng.integers(2) else None)))
    has_ts = any(m['kind'] in ('load', 'renewable', 'grid') for m in mods)
    if window and has_ts and T >= 5 and rng.integers(2):
        a = int(rng.integers(0, T - 2))
        s['window'] = [a, int(rng.integers(a + 1, T + 1))]
    elif window and has_ts and T >= 10 and rng.integers(3) == 0:
        # the default balancing module starts at step 0
        s['ctor_initial'] = int(rng.integers(1, T - 5)) if s['unbalanced'] != 'default' and rng.integers(2) else 0
        s['ctor_final'] = int(rng.integers(s['ctor_initial'] + 4, T + 1))
    if shaper:
        s['shaper'] = str(rng.choice(['pv', 'battery']))
    if traj and has_ts and T >= 5:
        lo, hi = s['window'] or [s['ctor_initial'], s['ctor_final'] or T]
        k = rng.integers(3)
        if k == 0 or hi - lo < 4:
            a = int(rng.integers(lo, hi))
            s['traj'] = ['det', a, int(rng.integers(a + 1, hi + 1))]
        elif k == 1:
            s['traj'] = ['sto']
        else:
            s['traj'] = ['fix', int(rng.integers(1, hi - lo + 1))]
    return s


def trajectory(t):
    if t is None:
        return None
    return dict(det=DeterministicTrajectory, sto=StochasticTrajectory, fix=FixedLengthStochasticTrajectory)[t[0]](*t[1:])


def shaper(s):
    return {None: None, 'pv': PVCurtailmentShaper, 'battery': BatteryDischargeShaper}[s] and \
        {'pv': PVCurtailmentShaper, 'battery': BatteryDischargeShaper}[s]()


def _ts(m):
    a = np.array(m['ts'], dtype=float)
    if m.get('neg'):
        a = -a
    form = m.get('form', 'array')
    if form.startswith('dated'):
        idx = pd.date_range('2020-03-01', periods=len(a), freq='h')
        return pd.Series(a, index=idx) if form == 'dated' and a.ndim == 1 else pd.DataFrame(a, index=idx)
    if form.startswith('int') and (a != np.round(a)).any():  # a check replaced the series
        form = 'array'
    if form.startswith('int'):
        a = a.astype(int)
        return a if form == 'ints' else a.tolist() if form == 'int_list' else pd.DataFrame(a)
    if form == 'list':
        return a.tolist()
    if form == 'col':
        return a.reshape(-1, 1)
    if form == 'df':
        return pd.DataFrame(a)
    if form == 'series':
        return pd.Series(a)
    return a


def fc_value(f):
    return FCS[f] if isinstance(f, str) and f in FCS else f


def fc_kwargs(fc):
    if fc is None:
        return dict(forecaster=None)
    return dict(forecaster=fc_value(fc['f']), forecast_horizon=fc['h'], forecaster_increase_uncertainty=fc['iu'],
                forecaster_relative_noise=fc['rel'])


def _np_scalar(v):
    return np.bool_(v) if isinstance(v, bool) else np.int64(v) if isinstance(v, int) else np.float64(v) if isinstance(v, float) else v


def module(m, s):
    """Construct one pymgrid module from its spec."""
    k, init = m['kind'], dict(initial_step=s.get('ctor_initial', 0))
    if k in ('load', 'renewable', 'grid') and s.get('ctor_final'):
        init['final_step'] = s['ctor_final']
    if m.get('np'):
        m, init = {key: _np_scalar(v) for key, v in m.items()}, {key: _np_scalar(v) for key, v in init.items()}
    if k == 'load':
        return LoadModule(_ts(m), raise_errors=m['raise_errors'], **fc_kwargs(m['fc']), **init)
    if k == 'renewable':
        return RenewableModule(_ts(m), raise_errors=m['raise_errors'], **fc_kwargs(m['fc']), **init)
    if k == 'grid':
        return GridModule(max_import=m['imp'], max_export=m['exp'], time_series=_ts(m), cost_per_unit_co2=m['co2cost'],
                          raise_errors=m['raise_errors'], **fc_kwargs(m['fc']), **init)
    if k == 'battery':
        start = dict(init_charge=m['init']) if m['init_as'] == 'charge' else dict(init_soc=m['init'] / m['max'])
        return BatteryModule(min_capacity=m['min'], max_capacity=m['max'], max_charge=m['charge'], max_discharge=m['discharge'],
                             efficiency=m['eff'], battery_cost_cycle=m['cost'], raise_errors=m['raise_errors'],
                             battery_transition_model=TMS[m['tm']] if m['tm'] else None, **start, **init)
    if k == 'genset':
        return GensetModule(running_min_production=m['min'], running_max_production=m['max'],
                            genset_cost=COSTS[m['cost']] if isinstance(m['cost'], str) else m['cost'],
                            co2_per_unit=m['co2'], cost_per_unit_co2=m['co2cost'], start_up_time=m['up'],
                            wind_down_time=m['down'], allow_abortion=m['abort'], init_start_up=m['init_on'],
                            raise_errors=m['raise_errors'], **init)
    return UnbalancedEnergyModule(raise_errors=False, loss_load_cost=s['llc'], overgeneration_cost=s['ogc'], **init)


def module_list(s):
    return [mod if m['name'] is None else (m['name'], mod) for m, mod in ((m, module(m, s)) for m in s['modules'])]


def mg_kwargs(s):
    kw = dict(add_unbalanced_module=s['unbalanced'] == 'default', reward_shaping_func=shaper(s['shaper']))
    if s['unbalanced'] == 'default':
        kw.update(loss_load_cost=s['llc'], overgeneration_cost=s['ogc'])
    return kw


def build(s, cls=Microgrid, modules=None, fresh=False, **kw):
    """Construct the microgrid of a spec, positioned at the start of its first episode (unless fresh: never reset)."""
    has_traj = s['traj'] is not None
    mg = cls(modules if modules is not None else module_list(s), trajectory_func=None if s['window'] else trajectory(s['traj']),
             **mg_kwargs(s), **kw)
    if s['window']:
        mg.initial_step, mg.final_step = s['window']
        mg.trajectory_func = trajectory(s['traj'])
        mg.reset()
    elif has_traj and not fresh:
        mg.reset()
    return mg


def dumpable(s):
    return all(not (m.get('tm') or isinstance(m.get('cost'), str) or (m.get('fc') and m['fc']['f'] in FCS)) for m in s['modules'])


def has_ts(s):
    return any(m['kind'] in ('load', 'renewable', 'grid') for m in s['modules'])
