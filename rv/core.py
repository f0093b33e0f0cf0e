"""Monitor objects and the run driver shared by all checks.

A check module provides
    PROPERTY, RULE            id and how cases are made / what makes one non-trivial
    cases(rng, tier)          list of JSON-serialisable case dicts
    run_case(case, mon)       run the real code on that case under monitors
    REQUIRED (optional)       {monitor: minimum number of evaluations}
    TIMEOUT (optional)        seconds one case may take

Cases are executed in worker processes (so that hangs, crashes and leaked state stay contained), the verdict is
computed from what the monitors observed.
"""
import hashlib
import json
import math
import os
import random
import subprocess
import sys
import tempfile
import threading
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


def jsonable(x, depth=0):
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return repr(x)
    if isinstance(x, np.generic):
        if np.issubdtype(x.dtype, np.complexfloating):
            return repr(complex(x))
        if np.issubdtype(x.dtype, np.floating):
            return jsonable(float(x))
        return x.item()
    if isinstance(x, np.ndarray):
        if x.size > 12:
            return {'shape': list(x.shape), 'head': [jsonable(v) for v in x.ravel()[:4]],
                    'tail': [jsonable(v) for v in x.ravel()[-2:]]}
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


class Mon:
    """Collects what the monitors of one case observed."""

    def __init__(self, prop, case):
        self.prop, self.case = prop, case
        self.evals = {}
        self.worst = {}
        self.viol = []
        self.counts = {}
        self.states = set()
        self.tags = {}
        self.samples = []

    # -- observation counters
    def obs(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def seen(self, *key):
        self.states.add('|'.join(str(k) for k in key))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def tag(self, **kw):
        self.tags.update({k: jsonable(v) for k, v in kw.items()})

    # -- verdicts
    def check(self, monitor, ok, **info):
        self.evals[monitor] = self.evals.get(monitor, 0) + 1
        if not bool(ok):
            if len(self.viol) < 12:
                self.viol.append({'monitor': monitor, 'tags': dict(self.tags), 'info': jsonable(info)})
        return bool(ok)

    def close(self, monitor, got, want, rtol=1e-9, atol=0.0, **info):
        """All entries of got equal want within atol + rtol*|want| (NaN never passes unless want is NaN)."""
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(float)
            if w.dtype == np.longdouble:
                w = w.astype(float)
            if g.shape != w.shape and not (g.shape == () or w.shape == ()):
                return self.check(monitor, False, got_shape=g.shape, want_shape=w.shape, **info)
            g, w = np.broadcast_arrays(g, w)
        except Exception as e:
            return self.check(monitor, False, error=repr(e), got=got, want=want, **info)
        a = np.broadcast_to(np.asarray(atol, dtype=float), g.shape)
        n = int(g.size)
        self.evals[monitor] = self.evals.get(monitor, 0) + n
        with np.errstate(all='ignore'):
            tol = a + np.asarray(rtol, dtype=float) * np.abs(w)
            same = (g == w) | (np.isnan(g) & np.isnan(w))
            err = np.where(same, 0.0, np.abs(g - w))
            ratio = np.where(same, 0.0, err / np.maximum(tol, 1e-300))
            ratio = np.where(np.isnan(ratio), np.inf, ratio)
        if n == 0:
            return True
        i = int(np.argmax(ratio))
        m = float(ratio.ravel()[i])
        if m > self.worst.get(monitor, -1.0):
            self.worst[monitor] = m
        if m > 1.0:
            if len(self.viol) < 12:
                self.viol.append({'monitor': monitor, 'tags': dict(self.tags),
                                  'info': jsonable(dict(got=g.ravel()[i], want=w.ravel()[i], err_over_tol=m, index=i, **info))})
            return False
        return True

    def raises(self, monitor, exc, fn, **info):
        """fn() must raise exc (class or tuple)."""
        try:
            r = fn()
        except exc:
            return self.check(monitor, True)
        except Exception as e:
            return self.check(monitor, False, expected=getattr(exc, '__name__', str(exc)), raised=repr(e)[:300], **info)
        return self.check(monitor, False, expected=getattr(exc, '__name__', str(exc)), returned=repr(r)[:200], **info)

    def result(self):
        return {'evals': self.evals, 'worst': {k: jsonable(v) for k, v in self.worst.items()}, 'viol': self.viol, 'counts': self.counts,
                'states': sorted(self.states), 'samples': self.samples}


# ---------------------------------------------------------------------------------------------------------------
# worker pool
# ---------------------------------------------------------------------------------------------------------------
def worker_env(tmp):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONPATH=VERIF, LC_ALL='C.UTF-8', HOME=tmp)
    for k in ('MALLOC_PERTURB_', 'LD_PRELOAD', 'PYTEST_ADDOPTS'):
        env.pop(k, None)
    so = shim(tmp)
    if so:
        env['LD_PRELOAD'] = so
    return env


def shim(tmp):
    """pyoscode 1.1.2 reads 16 bytes past its input arrays (and may then spin); pad allocations with zeros."""
    src = os.path.join(HERE, 'zerotail.c')
    out = os.path.join(tmp, 'zerotail.so')
    try:
        subprocess.run(['gcc', '-O2', '-fno-builtin', '-shared', '-fPIC', '-o', out, src], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        return out
    except Exception:
        return '/opt/vp/zerotail.so' if os.path.exists('/opt/vp/zerotail.so') else None


PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


class Worker:
    def __init__(self, check, env, tmp):
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-m', 'rv.worker', check], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.path.join(tmp, 'stderr.txt'), 'ab'), env=env, cwd=tmp, text=True)

    def run(self, case, timeout):
        box = {}

        def target():
            try:
                self.p.stdin.write(json.dumps(case) + '\n')
                self.p.stdin.flush()
                box['line'] = self.p.stdout.readline()
            except Exception as e:
                box['err'] = repr(e)
        t = threading.Thread(target=target, daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive():
            self.kill()
            return {'fail': 'timeout'}
        if box.get('line'):
            return json.loads(box['line'])
        self.kill()
        return {'fail': 'crash rc=%s %s' % (self.p.poll(), box.get('err', ''))}

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(5)
        except Exception:
            pass


def run_cases(check, cases, jobs, timeout, tmp, deadline):
    env = worker_env(tmp)
    results = [None] * len(cases)
    order = list(range(len(cases)))
    # longest first if the check gives a hint
    order.sort(key=lambda i: -cases[i].get('cost', 1))
    lock = threading.Lock()
    it = iter(order)

    def loop():
        w = None
        while True:
            with lock:
                i = next(it, None)
            if i is None:
                break
            if time.time() > deadline:
                results[i] = {'fail': 'deadline'}
                continue
            for attempt in (0, 1):
                if w is None or w.p.poll() is not None:
                    w = Worker(check, env, tmp)
                left = deadline - time.time()
                r = w.run(cases[i], max(5, min(timeout * (1 + attempt), left)))
                if 'fail' not in r:
                    break
                w = None
                if time.time() > deadline - 5:
                    break
            results[i] = r
        if w is not None:
            try:
                w.p.stdin.close()
                w.p.wait(5)
            except Exception:
                w.kill()
    ts = [threading.Thread(target=loop) for _ in range(min(jobs, max(1, len(cases))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results


# ---------------------------------------------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == prop]


def matches(v, k):
    if v['monitor'] != k['monitor']:
        return False
    for key, val in k.get('tags', {}).items():
        have = v['tags'].get(key)
        if isinstance(val, list):
            if have not in val:
                return False
        elif have != val:
            return False
    return True


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write('\n')


def main(check_id, module, tier, seed, jobs=None, replay=None, verbose=False, only=None):
    t0 = time.time()
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    tmp = tempfile.mkdtemp(prefix='rv-%s-' % check_id)
    try:
        return _main(check_id, module, tier, seed, jobs, replay, verbose, only, tmp, t0)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def _main(check_id, module, tier, seed, jobs, replay, verbose, only, tmp, t0):
    if replay:
        with open(replay) as f:
            cases = [json.load(f)['case']]
    else:
        rng = np.random.default_rng([seed, int(check_id[1:]), 0 if tier == 'quick' else 1])
        cases = module.cases(rng, tier)
        if only is not None:
            cases = [c for c in cases if c.get('kind') in only]
    for i, c in enumerate(cases):
        c.setdefault('id', i)
    timeout = getattr(module, 'TIMEOUT', 120)
    deadline = t0 + (840 if tier == 'quick' else 3 * 3600)
    results = run_cases(check_id, cases, jobs, timeout, tmp, deadline)

    evals, worst, counts, states, samples = {}, {}, {}, set(), []
    viol, fails = [], []
    for c, r in zip(cases, results):
        if r is None or 'fail' in r:
            fails.append((c, (r or {}).get('fail', 'lost')))
            continue
        for k, v in r['evals'].items():
            evals[k] = evals.get(k, 0) + v
        for k, v in r['worst'].items():
            v = float(v)
            if v > worst.get(k, (-1, 0))[0]:
                worst[k] = (v, c['id'])
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        states.update(r['states'])
        if len(samples) < 6:
            for s in r['samples'][:1]:
                samples.append({'case': jsonable(c), 'observed': s})
        for v in r['viol']:
            viol.append((c, v))
    for c, why in fails:
        if why.startswith('timeout') or why.startswith('crash'):
            viol.append((c, {'monitor': 'answers', 'tags': {}, 'info': {'what': 'the run on this input did not finish (twice)', 'how': why}}))

    known = load_known(check_id)
    hit, real = {}, []
    for c, v in viol:
        for j, k in enumerate(known):
            if matches(v, k):
                hit.setdefault(j, []).append((c, v))
                break
        else:
            real.append((c, v))
    # a listed finding that is still there is announced
    for j, k in enumerate(known):
        if j in hit:
            print('KNOWN-FINDING: property=%s %s' % (check_id, k['what']))
    missing = []
    if not replay and only is None:
        for m, n in getattr(module, 'REQUIRED', {}).items():
            if evals.get(m, 0) < n:
                missing.append('%s: %d < %d' % (m, evals.get(m, 0), n))

    cov = {'evaluations': int(sum(evals.values())), 'cases': len(cases), 'distinct_nontrivial': len(states),
           'rule': module.RULE, 'samples': samples or [{'case': jsonable(cases[0])}],
           'monitor_evaluations': dict(sorted(evals.items())), 'events_observed': dict(sorted(counts.items())),
           'worst_error_over_tolerance': {k: {'ratio': v[0], 'case': v[1]} for k, v in sorted(worst.items())},
           'known_findings_hit': {known[j]['what']: len(v) for j, v in hit.items()},
           'cases_without_result': len(fails)}
    ev = {'property': check_id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(module, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    if not replay:
        write_json(os.path.join(VERIF, 'evidence', check_id + '.json'), ev)
    if verbose:
        for k in sorted(evals):
            print('  %-34s n=%-8d worst=%s' % (k, evals[k], worst.get(k)))
        print('  counts', counts)
        print('  states', len(states), 'wall', ev['wall_s'], 'cases', len(cases), 'fails', [(c['id'], w) for c, w in fails])
    if real:
        shown = {}
        for c, v in real:
            shown.setdefault(v['monitor'], []).append((c, v))
        for m, lst in shown.items():
            c, v = lst[0]
            h = hashlib.sha1(json.dumps([c, v['monitor']], sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, 'evidence', 'replays', '%s-%s.json' % (check_id, h))
            if not replay:
                write_json(path, {'property': check_id, 'case': c, 'violation': v, 'replay_with': './check %s --replay %s' % (check_id, path)})
            else:
                path = replay
            print('violation %s x%d: %s' % (m, len(lst), json.dumps(v)[:900]))
            print('VIOLATION property=%s replay=%s' % (check_id, path))
        return 1
    if missing:
        print('INCONCLUSIVE %s: monitors did not observe enough: %s' % (check_id, '; '.join(missing)))
        return 2
    if any(w == 'deadline' for _, w in fails):
        print('%s: %d cases not run (time)' % (check_id, len(fails)))
    print('OK %s tier=%s seed=%d cases=%d monitor-evaluations=%d distinct=%d wall=%.1fs'
          % (check_id, tier, seed, len(cases), cov['evaluations'], len(states), ev['wall_s']))
    return 0
