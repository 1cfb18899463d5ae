"""Development tool for planted bugs (never run by a check).

  seedtool.py make SPEC.py ...     confirm each spec in a scratch copy and write seeded/<id>/
  seedtool.py catch [ID ...] [--props C01,..] [--seed N]   run checks against planted bugs in scratch copies

A spec defines ID, PROP, EDITS [(path under src/pymgrid, old, new)], DEMO (Python source), NEEDS, BREAKS.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
BASE = json.load(open('/opt/vp/BASELINE.json'))
BASE = BASE if isinstance(BASE, list) else BASE.get('stable') or BASE.get('passed')
FLAKY = 'test_bad_shape'


def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, shell=isinstance(cmd, str), text=True, capture_output=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def scratch():
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
    return d


def tests(d):
    env = {'PYTHONPATH': d + '/repo/src'}
    sh(f'/opt/venv/bin/python -m pytest tests --doctest-modules -q -n 2 -p no:cacheprovider --timeout=300 --continue-on-collection-errors '
       f'-o log_cli=false -o junit_family=xunit2 --junitxml={d}/junit.xml', d + '/repo', env)
    sh(f'/usr/bin/python3 /opt/vp/results.py {d}/out.json junit:{d}/junit.xml', d)
    passed = set(json.load(open(d + '/out.json'))['passed'])
    return [t for t in BASE if t not in passed]


def make(path):
    ns = {}
    exec(compile(open(path).read(), path, 'exec'), ns)
    d = scratch()
    try:
        for f, old, new in ns['EDITS']:
            p = f'{d}/repo/src/pymgrid/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f"{ns['ID']}: EDIT of {f} matches {s.count(old)} times"
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.check_output(['git', '-C', d + '/repo', 'diff'], text=True)
        gone = [l[1:] for l in patch.splitlines() if l.startswith('-') and not l.startswith('---')]
        root = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
        orig = [l for f, _, _ in ns['EDITS'] for l in subprocess.check_output(['git', '-C', '/repo', 'show', f'{root}:src/pymgrid/{f}'], text=True).splitlines()]
        if not any(l in orig for l in gone):
            return f"{ns['ID']}: changes no original line"
        demo = d + '/demo'
        os.mkdir(demo)
        open(demo + '/demo.py', 'w').write(ns['DEMO'])
        open(demo + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                           'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        env = {'PYTHONPATH': d + '/repo/src'}
        bad, out_bad = sh(['bash', demo + '/demo.sh'], d + '/repo', env)
        subprocess.check_call(['git', '-C', d + '/repo', 'stash', '-q'])
        good, out_good = sh(['bash', demo + '/demo.sh'], d + '/repo', env)
        subprocess.check_call(['git', '-C', d + '/repo', 'stash', 'pop', '-q'])
        if good != 0:
            return f"{ns['ID']}: DEMO fails on clean tree: {out_good[-800:]}"
        if bad == 0:
            return f"{ns['ID']}: DEMO passes with patch"
        failed = tests(d)
        if failed and not (len(failed) == 1 and FLAKY in failed[0]):
            return f"{ns['ID']}: TESTS fail: {failed[:4]} ({len(failed)})"
        out = os.path.join(SEEDED, ns['ID'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        open(out + '/patch.diff', 'w').write(patch)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        return f"{ns['ID']}: ok ({out_bad.strip().splitlines()[-1][:150]})"
    finally:
        shutil.rmtree(d)


def catch(id, props, seed, jobs=8):
    d = scratch()
    try:
        if id != 'clean':
            rc, out = sh(['git', 'apply', f'{SEEDED}/{id}/patch.diff'], d + '/repo')
            if rc:
                return f'{id}: PATCH does not apply {out}'
        shutil.copytree(VERIF, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        os.mkdir(d + '/verif/evidence')
        sh(f'grep -rlI /repo/src {d}/verif/check.py {d}/verif/harness | xargs sed -i s#/repo/src#{d}/repo/src#g', d)
        res = []
        for p in props:
            rc, out = sh(['/opt/venv/bin/python', d + '/verif/check.py', '--property', p, '--seed', str(seed), '--jobs', str(jobs)], d, timeout=900)
            why = [l for l in out.splitlines() if 'VIOLATION' in l or 'violat' in l.lower()]
            res.append(f"{p}={ {0: 'missed', 1: 'CAUGHT'}.get(rc, 'rc%d' % rc)}" + (f" {out.strip()[-300:]}" if rc not in (0, 1) else '') +
                       (' [' + ' '.join(out.split())[:160] + ']' if rc == 1 and os.environ.get('V') else ''))
        return f'{id}: ' + ' '.join(res)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, sys.argv[2:]):
                print(r, flush=True)
    else:
        import argparse
        ap = argparse.ArgumentParser()
        ap.add_argument('ids', nargs='*')
        ap.add_argument('--props')
        ap.add_argument('--seed', type=int, default=1)
        ap.add_argument('--par', type=int, default=2)
        a = ap.parse_args(sys.argv[2:])
        ids = a.ids or sorted(os.listdir(SEEDED))

        def one(id):
            props = a.props.split(',') if a.props else [json.load(open(f'{SEEDED}/{id}/meta.json'))['property']]
            return catch(id, props, a.seed, max(1, 8 // a.par))
        with ThreadPoolExecutor(a.par) as ex:
            for r in ex.map(one, ids):
                print(r, flush=True)
