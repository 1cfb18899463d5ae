#!/opt/venv/bin/python
"""check.py --property Cxx [--tier quick|thorough] [--seed N] [--cases N] | --replay FILE"""
import os
import sys

ENV = dict(PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = ['/repo/src', HERE]

import argparse  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    stderr = os.dup(2)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)     # gym and solver chatter
    try:
        import pymgrid
        from harness import core
    finally:
        os.dup2(stderr, 2)
    assert pymgrid.__file__.startswith('/repo/src/'), pymgrid.__file__
    if a.replay:
        return core.replay(a.replay)
    return core.main(a.property, a.tier, a.seed, cases=a.cases, jobs=a.jobs)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2                                       # no answer: the machinery itself failed
    sys.exit(rc)
