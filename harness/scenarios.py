"""The 25 benchmark scenarios as specs, read without pymgrid: from their files, and from the committed record of them."""
import csv
import gzip
import json
import os

import numpy as np
import yaml

ROOT = '/repo/src/pymgrid/data/scenario/pymgrid25'
RECORD = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'scenarios.json')


class Reader(yaml.SafeLoader):
    yaml_constructors = {k: v for k, v in yaml.SafeLoader.yaml_constructors.items() if k is None or k.startswith('tag:yaml.org')}


Reader.add_multi_constructor('!', lambda loader, tag, node: (
    {'!': tag, **loader.construct_mapping(node, deep=True)} if isinstance(node, yaml.MappingNode) else {'!': tag, 'file': loader.construct_scalar(node)}))


def series(base, ref):
    with gzip.open(os.path.join(base, ref['file']), 'rt') as f:
        rows = list(csv.reader(f))[1:]
    return [[float(x) for x in row[1:]] for row in rows]


def read(n):
    base = f'{ROOT}/microgrid_{n}'
    with open(f'{base}/microgrid_{n}.yaml') as f:
        d = yaml.load(f, Loader=Reader)
    spec = dict(modules=[], traj=None, shaper=None, window=[d['initial_step'], d['final_step']], unbalanced='explicit', ctor_initial=0, ctor_final=None)
    scale = 1.0
    for name, m in d['modules']:
        p = m['cls_params']
        tag = m['!']
        if tag in ('LoadModule', 'RenewableModule', 'GridModule'):
            ts = series(base, p['time_series'])
            fc = dict(f=p['forecaster'], h=p['forecast_horizon'], iu=False, rel=False) if p['forecaster'] else None
            if tag == 'GridModule':
                e = dict(kind='grid', imp=float(p['max_import']), exp=float(p['max_export']), ts=ts, co2cost=p['cost_per_unit_co2'], fc=fc)
            else:
                ts = [abs(r[0]) for r in ts]
                scale = max(scale, max(ts))
                e = dict(kind='load' if tag == 'LoadModule' else 'renewable', ts=ts, fc=fc)
        elif tag == 'BatteryModule':
            e = dict(kind='battery', min=p['min_capacity'], max=p['max_capacity'], charge=p['max_charge'], discharge=p['max_discharge'],
                     eff=p['efficiency'], cost=p['battery_cost_cycle'], init=m['state']['current_charge'], tm=None)
        elif tag == 'Genset':
            e = dict(kind='genset', min=p['running_min_production'], max=p['running_max_production'], cost=p['genset_cost'], co2=p['co2_per_unit'],
                     co2cost=p['cost_per_unit_co2'], up=p['start_up_time'], down=p['wind_down_time'], abort=p['allow_abortion'], init_on=bool(p['init_start_up']))
        else:
            spec.update(llc=p['loss_load_cost'], ogc=p['overgeneration_cost'])
            e = dict(kind='balancing')
        e.update(name=name, raise_errors=False)
        spec['modules'].append(e)
    spec.update(scale=scale, T=8760)
    return spec


def digest(ts):
    """A few numbers that pin a series: shape, sums, and a position-weighted checksum."""
    a = np.array(ts, dtype=float)
    a = a.reshape(len(a), -1)
    w = np.cos(np.arange(len(a)) * .7310585786) + 2
    return [list(a.shape), [float(x) for x in a.sum(0)], [float(x) for x in (a * w[:, None]).sum(0)], [float(x) for x in a.min(0)], [float(x) for x in a.max(0)]]


def record(spec):
    out = []
    for m in spec['modules']:
        d = {k: v for k, v in m.items() if k not in ('ts', 'raise_errors')}
        if 'ts' in m:
            d['ts'] = digest(m['ts'])
        out.append(d)
    return dict(modules=out, llc=spec.get('llc'), ogc=spec.get('ogc'), window=spec['window'])


def recorded():
    with open(RECORD) as f:
        return json.load(f)


if __name__ == '__main__':
    with open(RECORD, 'w') as f:
        json.dump([record(read(n)) for n in range(25)], f, indent=1)
