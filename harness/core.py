"""Execution of monitored cases: seeds, pool, watchdog, verdicts, evidence, replay.

A property module (harness/props/cXX.py) defines
    RULE         how cases are made and what makes one non-trivial
    CASES        {'quick': n, 'thorough': n}
    MIN          {counter: minimum total} below which the run is inconclusive (quick tier values)
    ASSUMPTIONS  list of strings
    run_case(ctx, rng, index)   runs one case; calls ctx.check(...) and ctx.seen(...)
A case that runs for two minutes of CPU time inside pymgrid is a violation (hang); cases take seconds.
Verdicts are three-valued: held (exit 0), violated (exit 1), inconclusive (exit 2).
"""
import hashlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter, deque

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = '/repo/src'
MAX_REPORTS = 5


class Violation(Exception):
    def __init__(self, key, message, detail=None):
        super().__init__(message)
        self.key, self.message, self.detail = key, message, detail or {}


class CaseTimeout(BaseException):
    pass


class Ctx:
    """What one case observed."""

    def __init__(self, prop, tier, seed, index, keep_sample=False):
        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        self.thorough = tier == 'thorough'
        self.counters = Counter()
        self.distinct = set()
        self.trail = []          # recent events, reported with a violation
        self.sample = None
        self.keep_sample = keep_sample

    def count(self, name, n=1):
        self.counters[name] += int(n)

    def seen(self, *key):
        """Record a distinct, non-trivial observed situation."""
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def event(self, *what):
        self.trail.append(what)
        if len(self.trail) > 40:
            del self.trail[:20]

    def describe(self, what):
        if self.sample is None:
            self.sample = what

    def check(self, cond, key, message='', **detail):
        self.counters['oracle_evaluations'] += 1
        if not cond:
            raise Violation(key, message if isinstance(message, str) else message(), detail)

    def close(self, a, b, key, message='', scale=1.0, rtol=1e-9, **detail):
        """a == b up to rounding; scale is the magnitude of the quantities a and b were computed from."""
        self.counters['oracle_evaluations'] += 1
        try:
            ok = abs(a - b) <= rtol * max(abs(a), abs(b), scale)
        except TypeError:
            ok = False
        if not ok and not (a == b):
            raise Violation(key, f'{message}: {a!r} != expected {b!r}', detail)

    def arr_close(self, a, b, key, message='', scale=1.0, rtol=1e-9, **detail):
        self.counters['oracle_evaluations'] += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Violation(key, f'{message}: shape {a.shape} != expected {b.shape}', detail)
        if a.size and not (np.abs(a - b) <= rtol * np.maximum(np.maximum(np.abs(a), np.abs(b)), scale)).all():
            raise Violation(key, f'{message}: {a.tolist()} != expected {b.tolist()}', detail)

    def raises(self, exc, fn, key, message='', **detail):
        """fn() raises one of the exception types exc."""
        self.counters['oracle_evaluations'] += 1
        try:
            out = fn()
        except exc as e:
            return e
        except (CaseTimeout, Violation):
            raise
        except Exception as e:
            raise Violation(key, f'{message}: raised {type(e).__name__}: {e} instead of {exc}', detail)
        raise Violation(key, f'{message}: did not raise {exc} but returned {str(out)[:200]}', detail)


def load_prop(prop):
    import importlib
    return importlib.import_module(f'harness.props.{prop.lower()}')


def _quiet():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    np.seterr(all='ignore')


def run_one(prop, tier, seed, index, limit, keep_sample=False):
    """Run one case; returns a plain dict."""
    mod = load_prop(prop)
    ctx = Ctx(prop, tier, seed, index, keep_sample)
    _quiet()
    num = int(prop[1:])
    rng = np.random.default_rng([seed, num, index])
    np.random.seed((seed * 1000003 + num * 7919 + index) % (2 ** 32))
    random.seed(seed * 1000003 + num * 7919 + index)
    out = dict(index=index, status='ok')

    def on_alarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    cpu = time.process_time()
    try:
        mod.run_case(ctx, rng, index)
    except CaseTimeout as e:
        out['status'] = 'timeout'
        if time.process_time() - cpu > .75 * limit:  # not a busy machine: cases take seconds
            where = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO_SRC)]
            if where:
                out.update(status='violation', key='hang', message=f'no end after {limit} s in {where[-1].name} ({os.path.basename(where[-1].filename)})',
                           detail={}, trail=_plain(ctx.trail[-12:]))
    except Violation as v:
        out.update(status='violation', key=v.key, message=v.message, detail=_plain(v.detail), trail=_plain(ctx.trail[-12:]))
    except MemoryError:
        out['status'] = 'timeout'
    except Exception as e:  # pymgrid failed on a valid input (or returned something the oracle cannot read)
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f for f in reversed(tb) if f.filename.startswith(REPO_SRC)), tb[-1])
        out.update(status='violation', key=f'exception:{type(e).__name__}:{os.path.basename(where.filename)}:{where.name}',
                   message=f'{type(e).__name__}: {_safe(lambda: str(e))}', detail={'traceback': _safe(lambda: traceback.format_exc()[-3000:])},
                   trail=_plain(ctx.trail[-12:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out['cpu'] = time.process_time() - cpu
    out['counters'] = dict(ctx.counters)
    out['distinct'] = list(ctx.distinct)
    out['sample'] = _plain(ctx.sample) if (keep_sample or out['status'] == 'violation') else None
    return out


def _safe(fn):
    try:
        return fn()
    except Exception as e:                           # objects of a broken pymgrid may fail to print
        return f'unprintable ({type(e).__name__})'


def _plain(x, depth=0):
    if depth > 12:
        return _safe(lambda: str(x)[:200])
    if isinstance(x, dict):
        return {str(k): _plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_plain(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        return _plain(x.tolist(), depth + 1)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return _safe(lambda: str(x)[:400])


def _worker(args):
    prop, tier, seed, indices, limit, deadline, sample_idx = args
    res = []
    for i in indices:
        if time.time() > deadline:
            res.append(dict(index=i, status='skipped', counters={}, distinct=[], sample=None))
            continue
        res.append(run_one(prop, tier, seed, i, limit, i in sample_idx))
    return res


def _serve(conn, parents):
    for c in parents:
        c.close()
    while True:
        try:
            task = conn.recv()
        except EOFError:
            os._exit(0)
        if task is None:
            os._exit(0)
        conn.send(_worker(task))


def run_chunks(work, jobs, deadline, per_child=40):
    """Results of each chunk of work, from forked processes that may hang or die: their cases then count as timed out."""
    fork = mp.get_context('fork')
    todo, live = deque(work), {}                     # connection -> [process, chunk, started, chunks so far]
    lost = lambda task: [dict(index=i, status='timeout', counters={}, distinct=[], sample=None) for i in task[3]]

    def start():
        ours, theirs = fork.Pipe()
        p = fork.Process(target=_serve, args=(theirs, [ours, *live]), daemon=True)
        p.start()
        theirs.close()
        live[ours] = [p, None, 0.0, 0]
        give(ours)

    def give(conn):
        w = live[conn]
        if todo and w[3] < per_child:
            w[1:] = [todo.popleft(), time.time(), w[3] + 1]
            try:
                conn.send(w[1])
            except OSError:                          # died between two chunks
                todo.append(w[1])
                end(conn, kill=True)
                start()
            return
        try:
            conn.send(None)
        except OSError:
            pass
        end(conn)
        if todo:
            start()

    def end(conn, kill=False):
        p = live.pop(conn)[0]
        if kill:
            p.kill()
        conn.close()
        p.join(30)
        if p.is_alive():
            p.kill()
            p.join(30)
    try:
        for _ in range(min(jobs, len(work))):
            start()
        while live:
            for conn in mp.connection.wait(list(live), timeout=10):
                task = live[conn][1]
                try:
                    res = conn.recv()
                except (EOFError, OSError):
                    end(conn, kill=True)
                    if todo:
                        start()
                    yield lost(task)
                    continue
                give(conn)
                yield res
            now = time.time()
            for conn, (p, task, since, _) in list(live.items()):
                if now > max(since, min(deadline, since + task[4] * len(task[3]))) + task[4] + 60:
                    end(conn, kill=True)
                    if todo:
                        start()
                    yield lost(task)
    finally:
        for conn in list(live):
            end(conn, kill=True)


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            return json.load(f).get('open', [])
    except FileNotFoundError:
        return []


def main(prop, tier, seed, cases=None, jobs=None, budget=None):
    t0 = time.time()
    mod = load_prop(prop)
    n = cases or mod.CASES[tier]
    jobs = jobs or min(8, os.cpu_count() or 1)
    budget = budget or (420 if tier == 'quick' else 3000)
    limit = getattr(mod, 'CASE_LIMIT', {}).get(tier, 120 if tier == 'quick' else 600)
    deadline = t0 + budget
    chunk = max(1, min(getattr(mod, 'CHUNK', 10), -(-n // (jobs * 2))))
    sample_idx = set(range(0, n, max(1, n // 3)))
    work = [(prop, tier, seed, list(range(a, min(a + chunk, n))), limit, deadline, sample_idx) for a in range(0, n, chunk)]
    counters, distinct, samples, status = Counter(), set(), [], Counter()
    violations, slowest = [], 0.0
    chunks = run_chunks(work, jobs, deadline)
    for res in chunks:
        for r in res:
            status[r['status']] += 1
            counters.update(r['counters'])
            distinct.update(r['distinct'])
            slowest = max(slowest, r.get('cpu', 0.0))
            if r['sample'] is not None and r['status'] == 'ok':
                samples.append((r['index'], r['sample']))
            if r['status'] == 'violation':
                violations.append(r)
        if len(violations) >= 40:
            break
    chunks.close()
    samples = [s for _, s in sorted(samples, key=lambda p: p[0])][:3]
    violations.sort(key=lambda r: r['index'])
    open_known = {f['key']: f for f in known_findings() if f['property'] == prop}
    reported, seen_keys = [], {}
    for v in violations:
        seen_keys.setdefault(v['key'], []).append(v)
    for key, f in open_known.items():
        if key in seen_keys:
            print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    for key, vs in seen_keys.items():
        if key in open_known:
            continue
        reported.append((key, vs))
    for key, vs in reported[:MAX_REPORTS]:
        v = vs[0]
        path = os.path.join(VERIF, 'evidence', 'replays', f'{prop}-{tier}-{seed}-{v["index"]}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, index=v['index'], key=key, message=v['message'],
                           detail=v['detail'], trail=v['trail'], case=v['sample']), f, indent=1, default=str)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {key} ({len(vs)} cases): {v["message"][:600]}')
    short = []
    if not reported:
        for name, least in getattr(mod, 'MIN', {}).items():
            if counters[name] < least:
                short.append(f'{name}={counters[name]} < {least}')
        done = status['ok'] + status['violation']
        if done < 0.8 * n:
            short.append(f'only {done} of {n} cases finished: {dict(status)}')
    executed = status['ok'] + status['violation'] + status['timeout']
    evidence = dict(property=prop, tier=tier, seed=seed, level='exploration',
                    coverage=dict(evaluations=executed, distinct_nontrivial=len(distinct), rule=mod.RULE, samples=samples,
                                  oracle_evaluations=counters['oracle_evaluations'],
                                  observed={k: v for k, v in sorted(counters.items()) if k != 'oracle_evaluations'},
                                  case_status=dict(status), slowest_case_cpu_s=round(slowest, 1), inconclusive=short),
                    assumptions=getattr(mod, 'ASSUMPTIONS', []),
                    wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    if reported:
        return 1
    if short:
        print(f'INCONCLUSIVE property={prop}: ' + '; '.join(short))
        return 2
    print(f'held property={prop} tier={tier} seed={seed} cases={executed} distinct={len(distinct)} '
          f'oracle_evaluations={counters["oracle_evaluations"]} wall={evidence["wall_s"]}s')
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    out = run_one(r['property'], r['tier'], r['seed'], r['index'], 600, True)
    print(json.dumps({k: out.get(k) for k in ('status', 'key', 'message', 'detail', 'trail')}, indent=1, default=str))
    return 1 if out['status'] == 'violation' else 0
