"""Property-based testing runner used by every check in /verif.

A check module (checks/cNN.py) registers *sub-checks* with `@sub(...)`: a Hypothesis strategy that produces plain
JSON-able cases, and a function that rebuilds the inputs from the case, runs the real library code imported from
/repo, and raises `Violation` (or anything else) when the oracle disagrees.  The function returns a truthy "shape"
string when the case was non-trivial.

The runner drives each sub-check with Hypothesis (seeded from VERIF_SEED), in several processes, lets Hypothesis
shrink the failure, writes the shrunk case as the replay file, and writes the evidence file.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

SUBS = {}


class Violation(AssertionError):
    pass


class _Abort(BaseException):
    """Stops a Hypothesis run from inside the test function."""


class _Hang(BaseException):
    pass


class Sub:
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule, case_timeout, enum):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.case_timeout = case_timeout
        self.enum = enum


def sub(prop, name, strategy=None, quick=200, thorough=None, rule='', case_timeout=60, enum=None, big=0, times=(8, 25, 60)):
    """Registers a sub-check. `strategy` may be a Hypothesis strategy or a zero-argument function returning one.
    `enum`: a zero-argument function yielding cases (an exhaustively enumerated finite space) instead of a strategy.
    `big`: number of cases of a second sub-check NAME_big, the same on much larger data (see gen.larger)."""
    def deco(fn):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick if enum else quick * 2, thorough or quick * 12, rule, case_timeout, enum))
        if big:
            from pbt.gen import larger
            SUBS[prop].append(Sub(prop, name + '_big', lambda: larger(strategy, times), fn, big * 2, big * 12,
                                  'as %s on data sets up to %d times larger, with more classes' % (name, max(times)), 2 * case_timeout, None))
        return fn
    return deco


def jdump(o):
    return json.dumps(o, sort_keys=True, default=_default)


def _default(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return repr(o)


def _alarm(signum, frame):
    raise _Hang()


def _run_case(s, case):
    """Runs one case with a clean, fixed global state. Returns the case's shape (truthy when non-trivial)."""
    import numpy as np
    np.random.seed(12345)
    import random
    random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    # the processor time of the case, so that a busy machine is not taken for a hang; three times that for a sleeping one
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, s.case_timeout)
    signal.setitimer(signal.ITIMER_REAL, 3 * s.case_timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                return s.fn(case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for f in tb:
        if '/quantificationlib/' in f.filename or '/checks/' in f.filename:
            where = '%s:%d' % (os.path.basename(f.filename), f.lineno)
    return '%s: %s [%s]' % (type(exc).__name__, str(exc)[:600], where)


def _seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], 'big')


def run_shard(args):
    """One process: runs `max_examples` cases of a sub-check. Returns a result dict."""
    prop, name, seed, shard, max_examples, time_cap, shrink_cap = args
    s = next(x for x in SUBS[prop] if x.name == name)
    res = dict(name=name, shard=shard, evaluations=0, nontrivial=0, digests=set(), shapes={}, samples=[], failure=None,
               capped=False, passed_evaluations=0, slowest=0.0)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    # Mutating the example just tried repeats its choices (method, labels...): fresh examples cover the space more evenly.
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    t0 = time.time()
    failing = []       # (len, case, message)
    history = []
    state = {'first_fail': None}

    def body(case):
        now = time.time()
        if state['first_fail'] is None:
            if now - t0 > time_cap:
                res['capped'] = True
                raise _Abort()
        elif now - state['first_fail'] > shrink_cap:
            raise _Abort()
        js = jdump(case)
        res['evaluations'] += 1
        if state['first_fail'] is None:
            history.append(js)
            if len(history) > 400:
                del history[:200]
        started = time.time()
        try:
            shape = _run_case(s, json.loads(js))
            res['slowest'] = max(res['slowest'], time.time() - started)
            if time.time() - started > float(os.environ.get('VERIF_SLOW', 'inf')):
                with open(os.environ.get('VERIF_SLOW_LOG', '/tmp/slow.log'), 'a') as fh:
                    fh.write('%s/%s %.1f s: %s\n' % (prop, name, time.time() - started, js))
        except _Hang:
            failing.append((0, js, 'did not finish within %d s of processor time' % s.case_timeout))
            raise _Abort()
        except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
            raise
        except Exception as e:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            failing.append((len(js), js, _describe(e)))
            raise
        if state['first_fail'] is None:
            res['passed_evaluations'] += 1
            if shape:
                res['nontrivial'] += 1
                res['digests'].add(hashlib.sha1(js.encode()).digest()[:8])
                k = str(shape)
                res['shapes'][k] = res['shapes'].get(k, 0) + 1
                if len(res['samples']) < 3 and (res['shapes'][k] == 1):
                    res['samples'].append({'sub': name, 'shape': k, 'case': json.loads(js)})

    if s.enum is not None:
        # exhaustive enumeration of a finite space, dealt out round-robin to the shards
        n_shards = max_examples
        try:
            for i, case in enumerate(s.enum()):
                if i % n_shards == shard:
                    body(case)
        except _Abort:
            pass
        except Exception:
            pass
    else:
        strat = s.strategy
        if not hasattr(strat, 'example'):
            strat = strat()
        test = given(strat)(body)
        test = settings(max_examples=max_examples, database=None, deadline=None, print_blob=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=[Phase.generate, Phase.shrink])(test)
        test = hypothesis.seed(_seed_of(seed, prop, name, shard))(test)
        try:
            devnull = open(os.devnull, 'w')
            old = sys.stdout
            sys.stdout = devnull
            try:
                test()
            finally:
                sys.stdout = old
                devnull.close()
        except _Abort:
            pass
        except hypothesis.errors.Unsatisfiable as e:
            if not failing and not res['passed_evaluations']:
                res['error'] = 'the generator produced nothing: %s' % e
        except BaseException as e:  # noqa: B902
            if isinstance(e, KeyboardInterrupt):
                raise
            if not failing:
                res['error'] = 'runner: ' + _describe(e)
    if failing:
        failing.sort(key=lambda t: t[0])
        chosen = None
        for _, js, msg in failing[:3]:
            if msg.startswith('did not finish'):
                chosen = (js, msg, True)
                break
            try:
                _run_case(s, json.loads(js))
            except _Hang:
                chosen = (js, 'did not finish within %d s of processor time' % s.case_timeout, True)
                break
            except Exception as e:
                chosen = (js, _describe(e), True)
                break
        if chosen is None:
            # it only fails after the cases before it: a dependence on the history of calls in the process
            chosen = (failing[-1][1], failing[-1][2] + ' (only after the preceding calls in the same process)', False)
        res['failure'] = dict(case=json.loads(chosen[0]), message=chosen[1], reproduces_alone=chosen[2],
                              preceding=[] if chosen[2] else [json.loads(h) for h in history[-200:]])
    return res


def _worker(q_out, args):
    try:
        q_out.put(('ok', run_shard(args)))
    except BaseException as e:  # noqa: B902
        q_out.put(('err', (args[1], args[3], traceback.format_exc()[-2000:], repr(e))))


def run_property(prop, title_rule=''):
    import multiprocessing as mp
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    only = os.environ.get('VERIF_SUB')
    subs = [s for s in SUBS[prop] if not only or s.name == only]
    n_cpu = max(2, min(8, os.cpu_count() or 8))
    jobs = []
    for s in subs:
        n = s.quick if tier == 'quick' else s.thorough
        if s.enum is not None:
            shards = 1 if tier == 'quick' and s.quick <= 1 else 4
            for k in range(shards):
                jobs.append((prop, s.name, seed, k, shards, 600, 60))
            continue
        shards = 4
        if n < 40:
            shards = 1 if n < 20 else 2
        for k in range(shards):
            jobs.append((prop, s.name, seed, k, -(-n // shards), 150 if tier == 'quick' else 420,
                         45 if tier == 'quick' else 90))
    ctx = mp.get_context('fork')
    results, errors = [], []
    running = {}
    pending = list(jobs)
    hard_limit = 840 if tier == 'quick' else 3000
    while pending or running:
        while pending and len(running) < n_cpu:
            j = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_worker, args=(q, j))
            p.start()
            running[p.pid] = (p, q, j)
        done = []
        for pid, (p, q, j) in running.items():
            if not q.empty():
                kind, val = q.get()
                (results if kind == 'ok' else errors).append(val)
                done.append(pid)
                p.join(10)
            elif not p.is_alive():
                if not q.empty():
                    continue
                errors.append((j[1], j[3], 'worker ended with code %s' % p.exitcode, ''))
                done.append(pid)
        for pid in done:
            running.pop(pid)
        if time.time() - t0 > hard_limit:
            for pid, (p, q, j) in running.items():
                p.kill()
                errors.append((j[1], j[3], 'stopped at the time limit', ''))
            pending, running = [], {}
        time.sleep(0.01)

    rc = 0
    failures = {}
    for r in results:
        if r['failure']:
            cur = failures.get(r['name'])
            if cur is None or len(jdump(r['failure'])) < len(jdump(cur)):
                failures[r['name']] = r['failure']
    kf_lines, kf_errors = run_known_findings(prop)
    for line in kf_lines:
        print(line)
    n_viol = 0
    for name, f in sorted(failures.items()):
        n_viol += 1
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%s.json' % (prop, name))
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, sub=name, seed=seed, tier=tier, **f), fh, indent=1, default=_default)
        print('  %s/%s: %s' % (prop, name, f['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    for r in results:
        if r.get('error'):
            errors.append((r['name'], r['shard'], r['error'], ''))
    for e in errors + kf_errors:
        print('ERROR %s' % (e,))
        if rc == 0:
            rc = 2
    digests = set()
    for r in results:
        digests |= {(r['name'], d) for d in r['digests']}
    per_sub = {}
    for r in results:
        a = per_sub.setdefault(r['name'], dict(evaluations=0, nontrivial=0, shapes={}, stopped_by_time_cap=False, slowest_case_s=0))
        a['evaluations'] += r['evaluations']
        a['nontrivial'] += r['nontrivial']
        a['stopped_by_time_cap'] |= r['capped']
        a['slowest_case_s'] = max(a['slowest_case_s'], round(r['slowest'], 1))
        for k, v in r['shapes'].items():
            a['shapes'][k] = a['shapes'].get(k, 0) + v
    for a in per_sub.values():
        if len(a['shapes']) > 40:
            top = sorted(a['shapes'].items(), key=lambda t: -t[1])
            a['shapes'] = dict(top[:40])
            a['shapes']['(other shapes)'] = sum(v for _, v in top[40:])
    samples = []
    seen = {}
    for r in results:
        for smp in r['samples']:
            seen[r['name']] = seen.get(r['name'], 0) + 1
            if seen[r['name']] <= 1 and len(jdump(smp)) < 6000:
                samples.append(smp)
    if not samples:
        for r in results:
            samples += r['samples'][:1]
    rule = ' | '.join('%s: %s' % (s.name, s.rule) for s in subs)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(r['evaluations'] for r in results), distinct_nontrivial=len(digests),
                            rule=rule, samples=samples, per_subcheck=per_sub),
              wall_s=round(time.time() - t0, 2), violations=n_viol,
              assumptions=['inputs are numpy arrays of the documented shapes',
                           'numpy, scipy, scikit-learn, quadprog, cvxpy/ECOS are trusted'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=_default)
    print('%s: %d cases, %d distinct non-trivial, %d sub-checks, %.1f s -> %s' % (
        prop, ev['coverage']['evaluations'], len(digests), len(subs), time.time() - t0,
        'ok' if rc == 0 else 'VIOLATED' if rc == 1 else 'ERROR'))
    return rc


def run_known_findings(prop):
    """Re-runs the specific failing case of each listed finding; each prints one KNOWN-FINDING line while it fails."""
    lines, errors = [], []
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return lines, errors
    with open(path) as fh:
        data = json.load(fh)
    for f in data.get('findings', []):
        if f['property'] != prop:
            continue
        s = next((x for x in SUBS[prop] if x.name == f['sub']), None)
        if s is None:
            errors.append((f['sub'], 0, 'known finding names an unknown sub-check', ''))
            continue
        try:
            _run_case(s, dict(f['case'], known_finding=True))
        except _Hang:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        except Exception:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        else:
            lines.append('note: the known finding "%s" no longer fails' % f['what'])
    return lines, errors


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    s = next(x for x in SUBS[r['property']] if x.name == r['sub'])
    for c in r.get('preceding') or []:
        try:
            _run_case(s, c)
        except Exception:
            pass
    try:
        _run_case(s, r['case'])
    except _Hang:
        print('  did not finish')
    except Exception as e:
        print('  ' + _describe(e))
        if os.environ.get('VERIF_TB'):
            traceback.print_exc()
    else:
        print('the case in %s does not fail' % path)
        return 0
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1
