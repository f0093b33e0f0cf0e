"""C20: computations are repeatable, do not influence each other (in any order or concurrently) and leave their inputs alone."""
import functools
import hashlib
import inspect
import os
import random
import sys
import threading
import time
import types
import warnings
import numpy as np
from .. import bg
from ..pots import Pot, FEATURES, random_pot
from .c13 import digest, answers, attempt

PROPERTY = 'C20'
RULE = ('groups of independent jobs (background runs in both clocks with calibration and all approximate spectra, numerical mode spectra, potential queries, cosmology functions, shooting initial conditions, sampler components), some '
        'of them sharing potential or equation objects, are run one after another, in other orders, and concurrently in threads with an aggressive switch interval and yields injected into every solver step; results are compared bit by '
        'bit, inputs and objects before and after, and process state and module state around every sequential call. Non-trivial = distinct (set of jobs, schedule kind); interleavings are counted from a trace of solver steps.')
REQUIRED = {'repeat': 500, 'order': 500, 'concurrent': 500, 'inputs': 200, 'process': 100}
TIMEOUT = 200
KINDS = ['background', 'background', 'background', 'modes', 'potential', 'bigbang', 'shooting', 'sampler']


def cases(rng, tier):
    n = 20 if tier == 'quick' else 400
    out = []
    for i in range(n):
        out.append(dict(kind='jobs', seed=int(rng.integers(2**31)), share=bool(i % 2), jobs=[str(q) for q in rng.choice(KINDS, size=4, replace=True)] + ['background']))
    return out


# -- snapshots of the state that nobody may change

def scalarish(v, depth=0):
    if isinstance(v, (bool, int, float, str, bytes, type(None), complex)):
        return repr(v)
    if isinstance(v, np.ndarray):
        return hashlib.sha1(v.tobytes()).hexdigest() if v.dtype != object else 'object array'
    if isinstance(v, np.generic):
        return repr(v)
    if isinstance(v, (list, tuple)) and depth < 4:
        return '[%s]' % ','.join(scalarish(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 4:
        return '{%s}' % ','.join('%r:%s' % (k, scalarish(x, depth + 1)) for k, x in v.items())
    if isinstance(v, (types.FunctionType, types.MethodType, type, types.BuiltinFunctionType)):
        return 'callable'
    if type(v).__module__.startswith('primpy') and depth < 3:
        return '%s@%x%s' % (type(v).__name__, id(v), '' if 'equations' in type(v).__module__ else scalarish({k: w for k, w in vars(v).items() if k not in LAZY and not k.startswith('_')}, depth + 1))
    return type(v).__name__


LAZY = ('phi_end', 'vwarn', 'vprint')


def modules():
    """values in the library's modules and classes."""
    out = {}
    for name, m in list(sys.modules.items()):
        if m is None or not (name.startswith('primpy') or name.startswith('cobaya_wrapper')):
            continue
        for k, v in list(vars(m).items()):
            if k.startswith('_'):        # private state matters where it changes results, which the other monitors judge
                continue
            out[name + '.' + k] = scalarish(v) + (str(id(v)) if callable(v) else '')
            if inspect.isclass(v) and v.__module__.startswith(('primpy', 'cobaya_wrapper')):
                for q, w in list(vars(v).items()):
                    if not q.startswith('_'):
                        out['%s.%s.%s' % (name, k, q)] = scalarish(w) + (str(id(w)) if callable(w) else '')
    return out


def process():
    s = random.getstate()
    r = np.random.get_state()
    return {'np.geterr': repr(np.geterr()), 'random': hashlib.sha1(repr(s).encode()).hexdigest(), 'np.random': hashlib.sha1(r[1].tobytes() + repr(r[2:]).encode()).hexdigest(),
            'warnings.filters': repr(warnings.filters), 'cwd': os.getcwd(), 'environ': hashlib.sha1(repr(sorted(os.environ.items())).encode()).hexdigest(),
            'recursion': sys.getrecursionlimit(), 'print': repr(np.get_printoptions()), 'threads': threading.active_count(), 'stdout': id(sys.stdout), 'showwarning': id(warnings.showwarning)}


def snapshot(objs):
    """of inputs: arrays, containers and the attributes of library objects."""
    out = {}
    for name, o in objs.items():
        if hasattr(o, '__dict__') and not callable(getattr(o, 'shape', None)) and not isinstance(o, (types.FunctionType, np.ndarray)):
            for k, v in vars(o).items():
                if not k.startswith('_') and k not in ('vwarn', 'vprint') and not isinstance(v, (types.MethodType, types.FunctionType)):
                    out['%s.%s' % (name, k)] = scalarish(v)
            # values computed on first use may appear
            lazy = [k for q in type(o).__mro__ for k, v in vars(q).items() if isinstance(v, functools.cached_property)]
            out[name + ' has'] = repr(sorted(k for k in vars(o) if not k.startswith('_') and k not in ('vwarn', 'vprint') and k not in lazy))
        else:
            out[name] = scalarish(o)
    return out


class Yielder:
    """an event that never happens; every solver step passes here, is recorded and may give up the processor."""
    terminal = False
    direction = 0

    def __init__(self, job, trace, on):
        self.job, self.trace, self.on, self.n, self.name = job, trace, on, 0, 'yield'

    def __call__(self, x, y):
        self.trace.append(self.job)
        self.n += 1
        if self.on[0] and self.n % 3 == 0:
            time.sleep(0 if self.n % 2 else 1e-5)
        return 1.0


class Job:
    def __init__(self, kind, seed, shared, j, trace, on):
        self.kind, self.j = kind, j
        rng = np.random.default_rng(seed)
        self.seed = seed
        self.trace, self.on = trace, on
        self.inputs = {}
        self.given = []
        if kind in ('background', 'modes'):
            if shared is not None and rng.random() < .7:
                s, self.eq = shared
                s = dict(s)
            else:
                s = bg.random_scenario(rng, kinds=bg.SMOOTH + list(FEATURES), method=['DOP853', 'RK45'][rng.integers(2)], N=(56, 66))
                self.eq = bg.make_equations(s)
            s['rtol'] = [1e-9, 1e-10][rng.integers(2)]
            self.s = s
            self.inputs.update(equations=self.eq, potential=self.eq.potential)
            self.ks = np.exp(rng.uniform(-3, 3, 5))
            self.inputs['k'] = self.ks
            self.teval = None
            if rng.random() < .4 and 'N_i' in s and s['clock'] == 'N':
                self.teval = s['N_i'] + np.linspace(0, 30, 500)
                self.inputs['t_eval'] = self.teval
        elif kind == 'potential':
            P = shared[1].potential if shared is not None and rng.random() < .5 else random_pot(rng).make()
            self.pot = P
            self.inputs['potential'] = P
        elif kind == 'shooting':
            self.s = bg.random_scenario(rng, kinds=['Quadratic', 'Starobinsky', 'Natural'], K=int(rng.integers(-1, 2)), ic='IS', clock='tN'[rng.integers(2)], N=(45, 55))
            self.eq = bg.make_equations(self.s)
            self.br = [float(self.s['phi_i'] - .15), float(self.s['phi_i'] + .3)]
            self.inputs.update(bracket=self.br, potential=self.eq.potential)

    def run(self):
        with np.errstate(all='ignore'):
            return getattr(self, 'do_' + self.kind)(np.random.default_rng(self.seed + 1))

    def give(self, name, obj):
        """an input made for one call: it is compared after the run with what it was when given."""
        self.given.append((name, obj, scalarish(obj)))
        return obj

    def taken(self):
        bad = [n for n, o, s in self.given if scalarish(o) != s]
        n = len(self.given)
        self.given = []
        return n, bad

    def background(self):
        ev = bg.std_events(self.eq) + [Yielder(self.j, self.trace, self.on)]
        kw = {} if self.teval is None else {'t_eval': self.teval}
        self.give('events', ev)
        return bg.run(self.s, eq=self.eq, events=ev, **kw)

    def do_background(self, rng):
        b = self.background()
        out = digest(b)
        if np.isfinite(b.N_tot) and b.N_tot > 20:
            err, _ = attempt(lambda: bg.calibrate_somehow(b, self.s['K'], rng))
            if err is None and 'logk2logP_s' in b:
                out.update({'calibrated ' + k: v for k, v in digest(b).items()})
                out.update(answers(b, self.ks))
        return out

    def do_modes(self, rng):
        from primpy.oscode_solver import solve_oscode
        b = self.background()
        if not np.isfinite(b.N_tot) or b.N_tot < 25 or b._N.size < 60:
            return digest(b)
        if attempt(lambda: bg.calibrate_somehow(b, self.s['K'], rng))[0] is not None or '_logaH_star' not in b:
            return digest(b)
        la = b._logaH[b.inflation_mask]
        k = np.exp(rng.uniform(la[0] + 1, la[-1] - 8, size=3))
        k = k if rng.random() < .3 else np.sort(k)[::-1].copy()
        self.give('modes', k)
        kw = {}
        if rng.random() < .5:
            kw['y0'] = self.give('y0', [[1., 0., 0., 1.], [2., 0., .5, 1.], [1., 1., -1., 1.]][rng.integers(3)])
        before = digest(b)
        pps = solve_oscode(b, k, vacuum=self.give('vacuum', ['RST', 'HD']), fac_beg=20, rtol=1e-3, **kw)
        after = digest(b)
        out = {'background %s' % q: np.array(float(np.array_equal(before[q], after.get(q), equal_nan=True))) for q in before}
        assert all(v == 1 for v in out.values()), 'background changed'
        for q in ('P_s_RST', 'P_t_RST', 'P_s_HD', 'P_t_HD'):
            out[q] = np.array(getattr(pps, q))
        return out

    def do_potential(self, rng):
        p, out = self.pot, {}
        import inspect as ins
        hi = p.sr_N2phi(60.) if attempt(lambda: p.sr_N2phi(60.))[0] is None else 5.
        phis = np.abs(hi) * rng.uniform(.7, 1.1, size=6)
        self.give('phi', phis)
        for q in sorted(dir(p)):
            if q.startswith(('V', 'dV', 'd2V', 'd3V', 'd4V', 'inv_V', 'get_epsilon', 'sr_phi2', 'sr_N2')) and callable(getattr(p, q)):
                f = getattr(p, q)
                for v in (phis, float(phis[0]), 55.):
                    err, r = attempt(lambda: f(v))
                    try:
                        out['%s(%d)' % (q, np.size(v))] = np.array(r, dtype=float) if err is None else np.array([float(len(err))])
                    except (TypeError, ValueError):
                        pass
        err, r = attempt(lambda: p.sr_As2Lambda(2e-9, None, 55.))
        out['As2Lambda'] = np.array(r, dtype=float) if err is None else np.array([float(len(err))])
        return out

    def do_bigbang(self, rng):
        import primpy.bigbang as bb
        h, om, ok = rng.uniform(.5, .9), rng.uniform(.1, .5), rng.uniform(-.1, .1)
        N0 = float(np.log(bb.get_a0(h=h, Omega_K0=ok, units='planck')))
        out = {}
        for u in ('planck', 'Mpc', 'SI'):
            for name, f in (('a0', lambda: bb.get_a0(h=h, Omega_K0=ok, units=u)), ('H0', lambda: bb.get_H0(h=h, units=u)),
                            ('cHH', lambda: bb.comoving_Hubble_horizon(N=self.give('N', N0 - np.arange(5.)), Omega_m0=om, Omega_K0=ok, h=h, units=u)),
                            ('eta', lambda: bb.conformal_time(N_start=N0 - 60, N=self.give('N', N0 - np.arange(3.)), Omega_m0=om, Omega_K0=ok, h=h))):
                err, r = attempt(f)
                out[name + u] = np.array(r, dtype=float) if err is None else np.array([float(len(err))])
        return out

    def do_shooting(self, rng):
        from primpy.initialconditions import ISIC_Nt
        s = self.s
        a = {q: s[q] for q in ('N_i', 'Omega_Ki') if q in s}
        if s['clock'] == 't':
            a['t_i'] = s['t_i']
        ic = bg.make_ic(s, self.eq)
        target = bg.run(s, eq=self.eq, ic=ic).N_tot
        if not np.isfinite(target):
            return {'none': np.zeros(1)}
        err, b = attempt(lambda: bg.run(s, eq=self.eq, ic=ISIC_Nt(self.eq, N_tot=target, phi_i_bracket=self.br, **a), events=bg.std_events(self.eq) + [Yielder(self.j, self.trace, self.on)]))
        return digest(b) if err is None else {'error': np.array([float(len(err))])}

    def do_sampler(self, rng):
        from .c19 import component
        c = component(['StarobinskySlowRollPPS', 'QuadraticSlowRollPPS', 'NaturalSlowRollPPS'][rng.integers(3)])
        import logging
        logging.disable(logging.CRITICAL)
        c = c()
        p = dict(A_s=float(rng.uniform(1e-9, 3e-9)), N_star=float(rng.uniform(45, 60)))
        if type(c).__name__.startswith('Natural'):
            p['phi0'] = 40.
        q, st = dict(p), {}
        self.give('point', q)
        c.calculate(st, **q)
        return {'s': st['primordial_scalar_pk']['Pk'], 't': st['primordial_tensor_pk']['Pk'], **{k: np.array(v, dtype=float) for k, v in st['derived'].items()}}


def same(mon, monitor, got, want, **info):
    bad = []
    for k in want:
        g = got.get(k)
        if g is None or g.shape != want[k].shape or not np.array_equal(g, want[k], equal_nan=True):
            bad.append(k)
    mon.evals[monitor] = mon.evals.get(monitor, 0) + len(want)
    mon.check(monitor, not bad and set(got) == set(want), differs=bad[:6], got=None if not bad else got.get(bad[0]), want=None if not bad else want[bad[0]], keys=sorted(set(got) ^ set(want))[:5], **info)


def run_case(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        jobs_case(case, mon)


def jobs_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    trace, on = [], [False]
    shared = None
    if case['share']:
        s = bg.random_scenario(rng, kinds=bg.SMOOTH, method='DOP853', N=(56, 66))
        shared = (s, bg.make_equations(s))
    jobs = [Job(k, int(rng.integers(2**31)), shared, j, trace, on) for j, k in enumerate(case['jobs'])]
    mon.tag(share=case['share'])
    import primpy.bigbang, primpy.initialconditions, primpy.oscode_solver, cobaya_wrapper.slowroll_pps     # noqa: imports are not what is observed
    if 'sampler' in case['jobs']:
        jobs[case['jobs'].index('sampler')].run()
    base = []
    for j in jobs:
        before, mods, proc = snapshot(j.inputs), modules(), process()
        base.append(j.run())
        after = {k: v for k, v in snapshot(j.inputs).items() if k in before}
        mon.check('inputs', before == after, job=j.kind, changed=[k for k in before if before[k] != after.get(k)][:5])
        mon.evals['inputs'] += len(before)
        n, bad = j.taken()
        mon.check('inputs', not bad, job=j.kind, what='given to a call', changed=bad[:5])
        mon.evals['inputs'] += n
        p2 = process()
        mon.check('process', proc == p2, job=j.kind, changed=[k for k in proc if proc[k] != p2[k]])
        m2 = modules()
        mon.check('process', all(m2.get(k) == v for k, v in mods.items()), job=j.kind, what='library modules', changed=[k for k in mods if m2.get(k) != mods[k]][:5])
        new = [k for k in m2 if k not in mods and k.rsplit('.', 1)[0] in mods]
        mon.check('process', not new, job=j.kind, what='new class attributes', changed=new[:5])
        mon.evals['process'] += len(mods)
        mon.obs('quantities', sum(v.size for v in base[-1].values()))
        mon.obs('job ' + j.kind)
    # at once again
    j = int(rng.integers(len(jobs)))
    same(mon, 'repeat', jobs[j].run(), base[j], job=jobs[j].kind)
    same(mon, 'repeat', jobs[j].run(), base[j], job=jobs[j].kind)
    # other orders
    order = [int(q) for q in rng.permutation(len(jobs))]
    for i in order:
        same(mon, 'order', jobs[i].run(), base[i], job=jobs[i].kind, order=order, kinds=case['jobs'])
    mon.seen('order', *sorted(case['jobs']), *order)
    # concurrently
    old = sys.getswitchinterval()
    results, errors = {}, {}
    inputs = [snapshot(j.inputs) for j in jobs]
    del trace[:]
    on[0] = True
    bar = threading.Barrier(len(jobs))

    def go(i):
        bar.wait()
        try:
            results[i] = jobs[i].run()
        except Exception as e:
            errors[i] = repr(e)
    try:
        sys.setswitchinterval(1e-5)
        ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        on[0] = False
    for i, j in enumerate(jobs):
        n, bad = j.taken()
        mon.check('inputs', not bad, job=j.kind, what='given to a call, concurrent', changed=bad[:5])
        mon.check('completes', i not in errors, what='job failed when run concurrently', job=j.kind, error=errors.get(i), kinds=case['jobs'])
        if i in results:
            same(mon, 'concurrent', results[i], base[i], job=j.kind, kinds=case['jobs'], share=case['share'])
        now = snapshot(j.inputs)
        mon.check('inputs', all(now.get(k) == v for k, v in inputs[i].items()), job=j.kind, what='concurrent', changed=[k for k in inputs[i] if now.get(k) != inputs[i][k]][:5])
    alt = sum(1 for a, b in zip(trace, trace[1:]) if a != b)
    mon.obs('solver steps in threads', len(trace))
    mon.obs('switches between jobs', alt)
    mon.seen('threads', *sorted(case['jobs']), hashlib.sha1(bytes(trace)).hexdigest()[:10])
    mon.sample(jobs=case['jobs'], steps=len(trace), switches=alt)
