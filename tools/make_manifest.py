"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = dict(
    C01='runtime monitor: energy-conservation checker over step traces', C02='runtime monitor: battery state invariants and charge accounting',
    C03='runtime monitor: genset trace automaton (history oracle)', C04='runtime monitor: grid limit, outage and price checker',
    C05='runtime monitor: cost recomputation from observed energies', C06='runtime monitor: dispatch-order checker',
    C07='runtime monitor: clock and episode-length trace checker', C08='runtime monitor: log audited against recorded event history',
    C09='runtime monitor: paired executions and space-mapping checker', C10='runtime monitor: observation checker against reference state',
    C11='runtime monitor: forecast checker against series', C12='runtime monitor: dump/load at random points, lockstep comparison',
    C13='runtime monitor: aliasing sentinel (snapshots of inputs and copies)', C14='runtime monitor: twin executions and query side-effect detector',
    C15='runtime monitor: action-set and deployment checker', C16='runtime monitor: rule-based-control trace checker',
    C17='runtime monitor: feasibility and optimality checker of played plans', C18='runtime monitor: lockstep of converted simulators',
    C19='runtime monitor: record auditor of the non-modular simulator', C20='runtime monitor: generated-system checker over seeds',
    C21='runtime monitor: request-clipping checker with injected bad requests', C22='runtime monitor: recording shaper and unshaped twin',
    C23='runtime monitor: recording trajectory function and episode checker', C24='runtime monitor: view-consistency checker',
    C25='offline log checker over whole-year benchmark runs', C26='runtime monitor: gym-contract checker with microgrid twin',
    C27='runtime monitor: non-modular controllers against independent optimiser',
    C28='runtime monitor: audit of drawn samples and of sample-average control',
    C29='runtime monitor: injected malformed inputs, side-effect detector around refusals',
    C30='runtime monitor: bookkeeping of user-defined modules beside built-in ones')


def main():
    ids = [json.loads(l)['id'] for l in open(f'{HERE}/properties.jsonl')]
    checks, na = [], []
    for i in ids:
        if os.path.exists(f'{HERE}/harness/props/{i.lower()}.py'):
            checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python check.py --property {i} --tier quick',
                               thorough_cmd=f'/opt/venv/bin/python check.py --property {i} --tier thorough',
                               technique=TECH[i], level='exploration',
                               level_note='Random, hostile and stress executions of the real code from /repo/src, seeded by VERIF_SEED, watched by '
                                          'oracles that are independent of it; what was observed is counted in the evidence.'))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na)
    with open(f'{HERE}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
