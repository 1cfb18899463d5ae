"""Development tool (never run by a check): syntactic mutants of pymgrid, those that the test suite does not notice, and whether the checks do.

  mutate.py gen OUT.json [--per-function N] [--seed S] [file ...]     list mutants
  mutate.py tests IN.json OUT.json                                  keep those that pass the stable tests
  mutate.py catch IN.json OUT.json [--cases-frac F]                 run the checks (most relevant first) on each, in scratch copies
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/pymgrid'
sys.path.insert(0, VERIF + '/tools')
SKIP_FUNC = re.compile(r'plot|print_|__repr__|__str__|display|_html|test_|penalize|set_horizon|describe|to_frame$')
SKIP_FILE = ('Environments', 'ray.py')
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.GtE], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}
NAMES = {'min': 'max', 'max': 'min', 'all': 'any', 'any': 'all', 'deepcopy': None, 'sorted': 'list', 'minimum': 'maximum', 'maximum': 'minimum', 'abs': 'float'}


def variants(node):
    """Replacement sources of a node."""
    import copy
    out = []

    def v(f):
        n = copy.deepcopy(node)
        m = f(n)
        out.append(ast.unparse(m if m is not None else n))
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            v(lambda n: n.ops.__setitem__(0, o()))
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        if not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)) and not isinstance(node.left, ast.JoinedStr):
            for o in BIN[type(node.op)]:
                v(lambda n: setattr(n, 'op', o()))
    elif isinstance(node, ast.BoolOp):
        v(lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
        for k in range(len(node.values)):
            v(lambda n: n.values.__delitem__(k) or (n.values[0] if len(n.values) == 1 else n))
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        v(lambda n: n.operand)
    elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
        v(lambda n: setattr(n, 'value', not n.value))
    elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
        for d in ((1,) if node.value else (1, -1)):
            v(lambda n: setattr(n, 'value', n.value + d))
    elif isinstance(node, ast.Call):
        f = node.func.id if isinstance(node.func, ast.Name) else node.func.attr if isinstance(node.func, ast.Attribute) else None
        if f in NAMES and NAMES[f]:
            def g(n):
                if isinstance(n.func, ast.Name):
                    n.func.id = NAMES[f]
                else:
                    n.func.attr = NAMES[f]
            v(g)
        if f in ('deepcopy', 'copy', 'abs', 'round', 'float', 'clip', 'max', 'min', 'sorted', 'reshape', 'array') and (node.args or isinstance(node.func, ast.Attribute)):
            v(lambda n: n.args[0] if n.args and not (f in ('copy', 'reshape') and isinstance(n.func, ast.Attribute)) else n.func.value)
        for k in range(len(node.keywords)):
            if node.keywords[k].arg:
                v(lambda n: n.keywords.__delitem__(k))
    elif isinstance(node, ast.IfExp):
        v(lambda n: n.body)
        v(lambda n: n.orelse)
    return out


def gen(files, per_function, seed):
    rnd = random.Random(seed)
    res = []
    for path in files:
        src = open(f'{SRC}/{path}').read()
        lines = src.splitlines(keepends=True)
        start = [0]
        for l in lines:
            start.append(start[-1] + len(l.encode()))
        b = src.encode()
        tree = ast.parse(src)
        for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
            if SKIP_FUNC.search(fn.name):
                continue
            cands = []
            body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
            for st in body:
                for n in ast.walk(st):
                    if isinstance(n, ast.FunctionDef) or not hasattr(n, 'lineno'):
                        continue
                    par = any(isinstance(x, (ast.Raise, ast.JoinedStr)) and x.lineno <= n.lineno <= x.end_lineno and
                              (x.col_offset, x.lineno) != (n.col_offset, n.lineno) for x in ast.walk(st))
                    if par:
                        continue
                    lo, hi = start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset
                    if isinstance(n, ast.expr):
                        for new in variants(n):
                            cands.append((lo, hi, f'({new})' if isinstance(n, (ast.BinOp, ast.Compare, ast.BoolOp, ast.IfExp)) else new))
                    elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n.lineno:
                        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                            seg = b[lo:hi].decode()
                            cands.append((lo, hi, seg.replace('+=', '-=', 1) if '+=' in seg else seg.replace('-=', '+=', 1)))
                        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                            continue
                        if 'warn' in b[lo:hi].decode() or 'print' in b[lo:hi].decode() or 'super().__init__' in b[lo:hi].decode():
                            continue
                        cands.append((lo, hi, 'pass'))
            rnd.shuffle(cands)
            for lo, hi, new in cands[:per_function]:
                m = (b[:lo] + new.encode() + b[hi:]).decode()
                try:
                    ast.parse(m)
                except SyntaxError:
                    continue
                res.append(dict(file=path, func=fn.name, line=b[:lo].count(b'\n') + 1, lo=lo, hi=hi, old=b[lo:hi].decode(), new=new))
    for k, m in enumerate(res):
        m['id'] = k
    return res


def apply(d, m):
    p = f'{d}/repo/src/pymgrid/{m["file"]}'
    b = open(p, 'rb').read()
    assert b[m['lo']:m['hi']].decode() == m['old']
    open(p, 'wb').write(b[:m['lo']] + m['new'].encode() + b[m['hi']:])


def tests(muts, n=8):
    from seedtool import sh, BASE, FLAKY
    dirs = []
    for _ in range(n):
        d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
        dirs.append(d)
    free = list(dirs)

    def one(m):
        d = free.pop()
        try:
            apply(d, m)
            try:
                rc, out = sh(f'/opt/venv/bin/python -m pytest tests --doctest-modules -q -x -p no:cacheprovider --timeout=60 --continue-on-collection-errors -o log_cli=false '
                             f'--deselect tests/microgrid/modules/forecaster_tests/test_forecaster.py::TestGaussianNoiseForecaster::test_bad_shape', d + '/repo', {'PYTHONPATH': d + '/repo/src'}, timeout=400)
            except subprocess.TimeoutExpired:
                rc, out = 9, ''
            m['passes'] = rc == 0
            return m
        finally:
            subprocess.check_call(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
            free.append(d)
    try:
        with ThreadPoolExecutor(n) as ex:
            for k, m in enumerate(ex.map(one, muts)):
                if k % 50 == 0:
                    print(k, sum(x.get('passes', False) for x in muts), flush=True)
    finally:
        for d in dirs:
            shutil.rmtree(d)
    return [m for m in muts if m['passes']]


REL = [('battery', 'C02 C09 C12 C05 C21'), ('genset', 'C03 C05 C09 C12 C21'), ('grid_module', 'C04 C05 C12 C09'), ('load_module', 'C06 C12 C10'),
       ('renewable', 'C06 C12 C10 C09'), ('unbalanced', 'C05 C06 C12 C21'), ('module_container', 'C24 C13 C08 C12 C26'), ('logger', 'C08 C12'), ('serialize', 'C12 C25'),
       ('space', 'C09 C10 C26'), ('forecaster', 'C11 C14 C12'), ('trajectory', 'C23 C12'), ('reward_shaping', 'C22 C12'), ('timeseries', 'C11 C10 C07 C12 C08 C24'),
       ('base_module', 'C21 C09 C08 C24 C12 C07 C26'), ('step.py', 'C01 C22 C05'), ('microgrid/microgrid.py', 'C01 C07 C08 C06 C10 C11 C12 C23 C24 C26'),
       ('envs', 'C26 C15 C12 C25'), ('priority_list', 'C15 C16'), ('rbc/_non', 'C27'), ('rbc', 'C16'), ('mpc', 'C17 C27'), ('Control', 'C27 C28'), ('saa', 'C28 C27'), ('DataGenerator', 'C28'),
       ('convert', 'C18 C19 C20'), ('_deprecated', 'C19 C18 C20 C27'), ('Generator', 'C20 C18')]
ALL = [f'C{k:02d}' for k in range(1, 29)]


def catch(muts, frac, out_path, n=4, only_rel=False):
    from seedtool import sh
    import importlib
    sys.path[:0] = [VERIF, '/repo/src']
    dirs = []
    for _ in range(n):
        d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
        shutil.copytree(VERIF, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        os.mkdir(d + '/verif/evidence')
        sh(f'grep -rlI /repo/src {d}/verif/check.py {d}/verif/harness | xargs sed -i s#/repo/src#{d}/repo/src#g', d)
        dirs.append(d)
    free = list(dirs)
    cases = {p: max(8, int(frac * int(re.search(r'quick=(\d+)', open(f'{VERIF}/harness/props/{p.lower()}.py').read()).group(1)))) for p in ALL}
    cases['C25'] = 8
    done = []

    def one(m):
        d = free.pop()
        try:
            apply(d, m)
            rel = [p for k, ps in REL if k in m['file'] for p in ps.split()]
            order = list(dict.fromkeys(rel + ([] if only_rel else [p for p in ALL if p != 'C25'])))
            m['caught'] = None
            for p in order:
                try:
                    rc, out = sh(['/opt/venv/bin/python', d + '/verif/check.py', '--property', p, '--cases', str(cases[p]), '--jobs', str(max(1, 8 // n))], d, timeout=600)
                except subprocess.TimeoutExpired:
                    rc, out = 9, 'timeout'
                if rc == 1:
                    m['caught'], m['how'] = p, ' '.join(out.split())[:300]
                    break
                if rc not in (0, 2):
                    m.setdefault('odd', []).append([p, rc, out[-300:]])
            done.append(m)
            json.dump(done, open(out_path, 'w'), indent=1)
            print(m['id'], m['file'], m['line'], m['caught'], flush=True)
            return m
        finally:
            subprocess.check_call(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
            free.append(d)
    try:
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, muts))
    finally:
        for d in dirs:
            shutil.rmtree(d)


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('paths', nargs='+')
    ap.add_argument('--per-function', type=int, default=3)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--frac', type=float, default=.25)
    ap.add_argument('--par', type=int, default=4)
    ap.add_argument('--rel', action='store_true')
    a = ap.parse_args()
    if a.cmd == 'gen':
        files = a.paths[1:] or [os.path.relpath(os.path.join(r, f), SRC) for r, _, fs in os.walk(SRC) for f in sorted(fs)
                                if f.endswith('.py') and not any(x in os.path.join(r, f) for x in SKIP_FILE)]
        res = gen(sorted(files), a.per_function, a.seed)
        json.dump(res, open(a.paths[0], 'w'))
        print(len(res))
    elif a.cmd == 'tests':
        ms = tests(json.load(open(a.paths[0])), a.par)
        json.dump(ms, open(a.paths[1], 'w'))
        print(len(ms), 'pass the tests')
    else:
        catch(json.load(open(a.paths[0])), a.frac, a.paths[1], a.par, a.rel)
