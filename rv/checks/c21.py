"""C21: random user-defined systems of equations through the real solver."""
import math
import numpy as np
from scipy import integrate, linalg

PROPERTY = 'C21'
RULE = ('programs: random systems of 1 to 6 variables with random names in random declaration order, random independent variable name, linear (closed form by matrix '
        'exponential) or non-linear (Lotka-Volterra, pendulum, Riccati) dynamics, random events (direction, terminal, several kinds), random solver settings; each is '
        'defined through the real base classes, solved by the real solver, and judged by the closed form and by the underlying integrator run directly. '
        'Non-trivial = distinct (number of variables, dynamics, events, method, sampling).')
REQUIRED = {'rows': 500, 'closed form': 200, 'direct': 300, 'events': 300, 'accessor': 500, 'slots': 300}


def cases(rng, tier):
    n = 40 if tier == 'quick' else 800
    return [{'kind': 'sys', 'seed': int(rng.integers(2**31)), 'n': 12} for _ in range(n)]


NAMES = ['phi', 'dphidt', '_N', 'eta', 'a', 'b', 'position', 'speed', 'zz', 'Q', 'alpha_1', 'w2', 'H', 'dphidN', 'temperature']


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    old = None
    for _ in range(case['n']):
        old = one(rng, mon, old)


def one(rng, mon, old):
    from primpy.equations import Equations
    from primpy.initialconditions import InitialConditions
    from primpy.events import Event
    from primpy.solver import solve
    n = int(rng.integers(1, 7))
    kind = ['linear', 'linear', 'lotka', 'pendulum', 'riccati'][int(rng.integers(5))]
    if kind in ('lotka', 'pendulum'):
        n = 2
    if kind == 'riccati':
        n = 1
    names = list(rng.permutation(NAMES)[:n])
    names = [str(s) for s in names]
    xname = str(rng.choice([c for c in ('t', 's', 'lnx', 'tau', '_N') if c not in names]))
    decl = [str(s) for s in rng.permutation(names)]
    if kind == 'linear':
        A = rng.normal(0, 1, (n, n)) / math.sqrt(n)
    c = np.round(rng.uniform(0.3, 1.5, 4), 3)
    v0 = rng.uniform(0.3, 1.5, n)

    def deriv(v):
        if kind == 'linear':
            return A @ v
        if kind == 'lotka':
            return np.array([c[0] * v[0] - c[1] * v[0] * v[1], c[2] * v[0] * v[1] - c[3] * v[1]])
        if kind == 'pendulum':
            return np.array([v[1], -c[0] * np.sin(v[0])])
        return -c[0] * v**2

    class System(Equations):
        def __init__(self):
            super().__init__()
            self._set_independent_variable(xname)
            how = int(rng.integers(3))
            if how == 0:
                self.add_variable(*decl)
            elif how == 1:
                for d in decl:
                    self.add_variable(d)
            else:
                self.add_variable(*decl[:1])
                self.add_variable(*decl[1:])

        def __call__(self, x, y):
            v = np.array([getattr(self, k)(x, y) for k in names])
            dv = deriv(v)
            dy = np.zeros_like(y)
            for k, d in zip(names, dv):
                dy[self.idx[k]] = d
            return dy

    x0, x1 = float(rng.choice([0.0, -1.3, 2.0])), None
    x1 = x0 + float(rng.uniform(1.0, 4.0)) * (1 if rng.random() < .8 or kind == 'riccati' else -1)
    eq = System()
    mon.check('slots', [k for k, _ in sorted(eq.idx.items(), key=lambda i: i[1])] == decl and sorted(eq.idx.values()) == list(range(n)), idx=dict(eq.idx), decl=decl)
    mon.check('slots', eq.independent_variable == xname, name=eq.independent_variable)
    got_kw = {}

    class IC(InitialConditions):
        def __init__(self, equations):
            super().__init__(equations)
            self.x_ini, self.x_end = x0, x1

        def __call__(self, y0, **kw):
            got_kw.update(kw)
            for k, v in zip(names, v0):
                y0[self.equations.idx[k]] = v

    class Cross(Event):
        def __init__(self, equations, var, value, direction, terminal, name):
            super().__init__(equations, direction, terminal, value)
            self.var, self.name = var, name

        def __call__(self, x, y):
            return getattr(self.equations, self.var)(x, y) - self.value
    events = []
    for i in range(int(rng.integers(0, 4))):
        k = int(rng.integers(n))
        var = names[k] if rng.random() < .75 else xname
        val = float(rng.uniform(min(x0, x1), max(x0, x1))) if var == xname else float(v0[k] * rng.uniform(0.5, 1.6))
        events.append(Cross(eq, var, val, int(rng.integers(-1, 2)), bool(rng.random() < .3), 'E%d_%s' % (i, var)))
    kw = {}
    if rng.random() < .6:
        kw['method'] = str(rng.choice(['RK45', 'DOP853', 'RK23', 'LSODA', 'BDF']))
    if rng.random() < .6 or kw.get('method') in ('BDF', 'RK23'):
        kw['rtol'], kw['atol'] = (1e-8, 1e-10) if kw.get('method') not in ('BDF', 'RK23') else (1e-6, 1e-8)
    if rng.random() < .4:
        kw['t_eval'] = np.linspace(x0, x1, int(rng.integers(2, 40)))
    if rng.random() < .3:
        kw['max_step'] = 0.07
    if rng.random() < .3:
        kw['dense_output'] = True
    if rng.random() < .2:
        kw['first_step'] = 1e-3
    keep = {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    evl = list(events)
    sol = solve(IC(eq), events=events, **kw) if events or rng.random() < .5 else solve(IC(eq), **kw)
    mon.check('inputs kept', events == evl and set(kw) == set(keep) and all(np.array_equal(kw[k], keep[k]) for k in kw), kw=kw)
    mon.check('inputs kept', got_kw.get('rtol') == keep.get('rtol', 1e-10) and got_kw.get('atol') == keep.get('atol', 1e-12), got=got_kw)
    # the underlying integrator with the same settings, written without the library
    order = [names.index(k) for k in decl]

    def f(x, y):
        v = np.empty(n)
        v[order] = y
        return deriv(v)[order]

    def ev(e):
        i = None if e.var == xname else decl.index(e.var)

        def g(x, y):
            return (x if i is None else y[i]) - e.value
        g.terminal, g.direction = e.terminal, e.direction
        return g
    ref_kw = dict(method='RK45', rtol=1e-10, atol=1e-12)
    ref_kw.update(keep)
    ref = integrate.solve_ivp(f, (x0, x1), v0[order], events=[ev(e) for e in events], **ref_kw)
    desc = dict(kind=kind, n=n, names=names, decl=decl, x=xname, method=ref_kw['method'])
    mon.check('direct', sol.x.shape == ref.t.shape and np.allclose(sol.x, ref.t, rtol=1e-12, atol=1e-13), got=sol.x[-3:], want=ref.t[-3:], **desc)
    if sol.x.shape == ref.t.shape:
        mon.close('direct', sol.y, ref.y, rtol=1e-9, atol=1e-10, **desc)
    mon.check('direct', sol.status == ref.status and sol.success == ref.success and sol.message == ref.message, got=sol.status, want=ref.status, **desc)
    mon.check('direct', getattr(sol, 'nfev', None) == ref.nfev, what='number of derivative evaluations', got=getattr(sol, 'nfev', None), want=ref.nfev)
    mon.check('direct', (sol.sol is not None) == bool(keep.get('dense_output')), what='dense output')
    # bookkeeping
    mon.check('rows', sol.independent_variable == xname and np.array_equal(getattr(sol, xname), sol.x), what='independent variable', **desc)
    for k in names:
        mon.check('rows', np.array_equal(getattr(sol, k), sol.y[decl.index(k)]), name=k, **desc)
        mon.check('accessor', np.array_equal(getattr(eq, k)(sol.x, sol.y), sol.y[decl.index(k)]), name=k, **desc)
        mon.check('accessor', getattr(eq, k)(sol.x[-1], sol.y[:, -1]) == sol.y[decl.index(k), -1], name=k, what='single state', **desc)
        mon.check('accessor', getattr(eq, k)(sol.x[-1], list(sol.y[:, -1])) == sol.y[decl.index(k), -1], name=k, what='list state', **desc)
    mon.check('accessor', np.array_equal(getattr(eq, xname)(sol.x, sol.y), sol.x), name=xname)
    if xname != 't' and 't' not in names:
        mon.check('rows', not hasattr(sol, 't'), what='no stray t')
    if kind == 'linear':
        xs = sol.x[:: max(1, sol.x.size // 8)]
        for x in xs:
            want = linalg.expm(A * (x - x0)) @ v0
            j = int(np.argmin(np.abs(sol.x - x)))
            tol = 1e-2 if ref_kw['rtol'] > 1e-9 or ref_kw['method'] in ('RK23', 'BDF', 'LSODA') else 1e-4
            g = np.array([getattr(sol, k)[j] for k in names])
            mon.close('closed form', g, want, rtol=tol * 1e-2, atol=tol * 1e-2 * np.linalg.norm(want) * 1, **desc)
    # events
    keys = [e.name for e in events]
    for a in ('x_events', xname + '_events', 'y_events'):
        mon.check('events', list(getattr(sol, a)) == keys, attr=a, got=list(getattr(sol, a)), want=keys)
    for i, e in enumerate(events):
        te, ye = ref.t_events[i], ref.y_events[i]
        mon.obs('events recorded', len(te))
        ok = np.asarray(sol.x_events[e.name]).shape == te.shape
        mon.check('events', ok and np.allclose(sol.x_events[e.name], te, rtol=1e-9, atol=1e-10), event=e.name, got=sol.x_events[e.name], want=te)
        mon.check('events', np.array_equal(getattr(sol, xname + '_events')[e.name], sol.x_events[e.name]), event=e.name)
        if ok and te.size:
            mon.close('events', sol.y_events[e.name], ye, rtol=1e-7, atol=1e-8, event=e.name)
            for k in names:
                mon.check('events', np.array_equal(getattr(sol, k + '_events')[e.name], np.asarray(sol.y_events[e.name])[:, decl.index(k)]), event=e.name, var=k)
            v = te if e.var == xname else getattr(sol, e.var + '_events')[e.name]
            mon.close('events', v, e.value, rtol=1e-6, atol=1e-6, event=e.name, what='value at event')
        else:
            for k in names:
                mon.check('events', np.size(getattr(sol, k + '_events')[e.name]) == 0, event=e.name, var=k, what='empty')
        if e.terminal and te.size:
            mon.obs('terminal events')
            if 't_eval' not in keep:
                mon.check('events', sol.status == 1 and abs(sol.x[-1] - max(te * np.sign(x1 - x0)) * np.sign(x1 - x0)) < 1e-9, event=e.name, what='stops there')
    # an older system object is not affected by newer ones
    if old is not None:
        oeq, onames, odecl, oidx = old
        y = np.arange(1.0, len(odecl) + 1)
        mon.check('slots', dict(oeq.idx) == oidx and all(getattr(oeq, k)(0.0, y) == y[odecl.index(k)] for k in onames), what='older system', idx=dict(oeq.idx))
    mon.seen(n, kind, len(events), ref_kw['method'], 't_eval' in keep)
    mon.obs('systems')
    mon.sample(**desc, events=keys, last=sol.y[:, -1])
    return eq, names, decl, dict(eq.idx)
