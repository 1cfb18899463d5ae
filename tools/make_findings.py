"""Writes /verif/known_findings.json: no open finding; fixed ones from the fix: commits of /repo."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (part of the subject, property)
    ('set_forecaster', 'C11'), ('setting forecast_horizon', 'C11'), ('loaded time series', 'C12'), ('logs of loaded', 'C12'),
    ('dumped to separate', 'C12'), ('reward_shaping_func is serialized', 'C12'), ('log index', 'C08'), ('stochastic trajectories are never', 'C23'),
    ('rounding does not charge', 'C02'), ('battery action bounds', 'C09'), ('as_sink raises', 'C21'), ('user-defined forecasters', 'C11'),
    ('identically named', 'C24'), ('reward shapers sum', 'C22'), ('BatteryDischargeShaper', 'C22'), ('asked to abort', 'C03'),
    ('NonModularMicrogrid', 'C19'), ('to_nonmodular converts', 'C18'), ('MPC of modular', 'C17'), ('normalized state_dict', 'C10'),
    ('keep its log', 'C26'), ('acts on the controllable', 'C26'), ('nested environment', 'C26'), ('no longer logged', 'C08'),
    ('can change status', 'C03'), ('sample actions with strict', 'C09'), ('without time series', 'C07'), ('rule-based control', 'C16'),
    ('without attributes can be dumped', 'C12'), ('ContinuousMicrogridEnv can be dumped', 'C12'), ('read back exactly', 'C12'),
    ('printed and compared', 'C12'), ('called once per step', 'C22'), ('rejected discrete actions', 'C15'), ('keep its initial and final', 'C26'),
    ('logged at their step', 'C26'), ('drops the module number', 'C08'), ('sampled', 'C09')]
EXTRA = [
    ('starts from the first row', 'C18'), ('times, not over, the efficiency', 'C18'), ('commands not given as zero', 'C19'), ('penalty compares', 'C19'),
    ('any array-like time series', 'C29'), ('any list-like of modules', 'C24'), ('any numpy number', 'C21'), ('numpy booleans', 'C12'), ('log dicts returned', 'C08'),
    ('incomplete controls', 'C21'), ('last logged values', 'C08'), ('series that is replaced', 'C11'),
    ('without grid and genset run after to_nonmodular', 'C18'), ('training and testing sets', 'C19'), ('draws the same data files', 'C20'), ('one power only', 'C18'),
    ('reseed', 'C18'), ('ControlOutput', 'C27'), ('pv samples can be', 'C28'), ('curves of pv', 'C28'), ('NoisyLoadData', 'C28'), ('hundredth percentile', 'C28'),
    ('leaves its samples', 'C28'), ('deterministically on its forecast', 'C28'), ('MPC counts exports', 'C17'), ('rule-based control of non-modular', 'C27'), ('Benchmarks', 'C27'), ('SampleAverageApproximation', 'C27')]


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
    fixed = []
    for line in log:
        h, s = line.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        p = next((p for k, p in EXTRA + PROP if k in s), None)
        assert p, s
        fixed.append(f'fixed: property={p} {h} {s[5:]} (before: it did not)')
    path = f'{HERE}/known_findings.json'
    with open(path, 'w') as f:
        json.dump(dict(open=[], fixed=[x.replace(' (before: it did not)', '') for x in fixed]), f, indent=1)
        f.write('\n')


main()
