"""C09: slow-roll and inflation-start initial conditions deliver the requested state."""
import math
import warnings
import numpy as np
from .. import bg
from ..pots import Pot, FEATURES

PROPERTY = 'C09'
RULE = ('random potential (all 15 families), curvature, field value, e-folds or curvature density, start and conformal time, both kinds of initial conditions in '
        'both time variables with every combination of tracked quantities; the real state vector, attributes and first samples of a real run are judged by own '
        'formulas; contradictory requests must be refused. Non-trivial = distinct (kind, family, curvature, time variable, tracked quantities, parametrisation).')
REQUIRED = {'state': 1000, 'attributes': 1000, 'first sample': 150, 'onset': 200, 'refused': 500}
KINDS = bg.SMOOTH + list(FEATURES)


def cases(rng, tier):
    n = 48 if tier == 'quick' else 900
    return [{'kind': 'ic', 'seed': int(rng.integers(2**31)), 'n': 12} for _ in range(n)]


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    for i in range(case['n']):
        one(rng, mon, i < 3)


def one(rng, mon, runs):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.initialconditions import SlowRollIC, InflationStartIC
    from primpy.exceptionhandling import InflationStartError
    from primpy.solver import solve
    from primpy.events import UntilTEvent, UntilNEvent, CollapseEvent
    s = bg.random_scenario(rng, kinds=KINDS, ic=['SR', 'IS'][int(rng.integers(2))])
    P, K, clock = Pot.from_spec(s['pot']), s['K'], s['clock']
    d = bg.initial_state(s)
    mon.tag(family=P.kind, K=K)
    te, tt = bool(rng.random() < .5), bool(rng.random() < .5)
    kw = dict(track_eta=te)
    if clock == 'N':
        kw['track_time'] = tt
    eq = (InflationEquationsT if clock == 't' else InflationEquationsN)(K=K, potential=P.make(), **kw)
    C = SlowRollIC if s['ic'] == 'SR' else InflationStartIC
    a = dict(phi_i=s['phi_i'])
    par = 'N_i' if 'N_i' in s else 'Omega_Ki'
    a[par] = s[par]
    # the start time is arbitrary, also zero and negative
    t_i = float(rng.choice([s['t_i'], 0.0, -s['t_i'], s['t_i'] * 1e3]))
    eta_i = float(rng.choice([0.0, rng.normal(), 1e4 * rng.normal()]))
    if clock == 't' or tt or rng.random() < .3:
        a['t_i'] = t_i
    if te or rng.random() < .3:
        a['eta_i'] = eta_i
    x_end = float(rng.choice([1e300, 1e8]))
    if x_end != 1e300:
        a['x_end'] = x_end
    ic = C(eq, **a)
    y0 = np.zeros(len(eq.idx))
    ic(y0=y0, rtol=1e-10, atol=1e-12)
    info = dict(pot=repr(P), K=K, ic=s['ic'], clock=clock, par=par)
    mon.seen(s['ic'], P.kind, K, clock, te, tt, par)
    rt = 1e-8
    mon.close('attributes', [ic.phi_i, ic.V_i], [s['phi_i'], d['V']], rtol=rt, **info)
    mon.close('attributes', ic.N_i, d['N'], rtol=rt, atol=1e-9, what='N_i', **info)
    mon.close('attributes', getattr(ic, par), s[par], rtol=0, what='request kept', **info)
    if K:
        mon.close('attributes', ic.Omega_Ki, d['Omega_Ki'], rtol=1e-7, what='Omega_Ki', **info)
        # the same curvature scale from its definition
        mon.close('attributes', ic.Omega_Ki, -K / (ic.H_i * math.exp(ic.N_i))**2, rtol=1e-7, what='Omega_Ki=-K/(aH)^2', **info)
    else:
        mon.close('attributes', ic.Omega_Ki, 0.0, atol=0, what='Omega_Ki', **info)
    cond = 1 + (abs(d['Omega_Ki']) if K > 0 else 0)
    mon.close('attributes', [ic.H_i, ic.aH_i], [d['H_i'], d['aH_i']], rtol=1e-8 * cond, what='H_i', **info)
    if s['ic'] == 'SR':
        mon.close('attributes', ic.aH2_i, d['aH_i']**2, rtol=1e-8 * cond, what='aH2_i', **info)
    mon.check('attributes', ic.x_ini == (t_i if clock == 't' else ic.N_i), what='x_ini', x_ini=ic.x_ini)
    mon.check('attributes', ic.x_end == x_end, what='x_end', x_end=ic.x_end)
    want = {'phi': s['phi_i']}
    if clock == 't':
        # dphi/dt of the documented condition, not of the reconstructed Hubble rate
        want['dphidt'] = -d['dV'] / (3 * d['H_i']) if s['ic'] == 'SR' else -math.sqrt(d['V'])
        want['_N'] = d['N']
        mon.close('attributes', ic.dphidt_i, want['dphidt'], rtol=1e-7 * cond, what='dphidt_i', **info)
    else:
        want['dphidN'] = -d['dV'] / (3 * d['H_i']**2) if s['ic'] == 'SR' else -math.sqrt(d['V']) / d['H_i']
        mon.close('attributes', ic.dphidN_i, want['dphidN'], rtol=1e-7 * cond, what='dphidN_i', **info)
        if tt:
            want['t'] = t_i
    if te:
        want['eta'] = eta_i
    mon.check('state', set(want) == set(eq.idx) and len(y0) == len(want), slots=sorted(eq.idx))
    for k, v in want.items():
        mon.close('state', y0[eq.idx[k]], v, rtol=1e-7 * cond, atol=1e-9 if k == '_N' else 0, slot=k, **info)
    x = ic.x_ini
    if s['ic'] == 'IS':
        # exactly at the onset of acceleration
        mon.close('onset', float(eq.w(x, y0)), -1 / 3, rtol=1e-9 * cond, what='w', **info)
        mon.close('onset', float(eq.H(x, y0)), ic.H_i, rtol=1e-7 * cond, what='Friedmann', **info)
        dV = float(eq.V(x, y0))
        u = float(eq.dphidt(x, y0)) if clock == 't' else float(eq.dphidN(x, y0) * eq.H(x, y0))
        mon.close('onset', u * u, dV, rtol=1e-7 * cond, what='dphidt^2=V', **info)
        mon.check('onset', u < 0, what='rolling down')
    else:
        # on the slow-roll attractor up to slow-roll corrections: 3 H dphidt = -V'
        H = ic.H_i
        u = y0[eq.idx['dphidt']] if clock == 't' else y0[eq.idx['dphidN']] * H
        mon.close('onset', 3 * H * u, -d['dV'], rtol=1e-7 * cond, what='3H dphidt=-V\'', **info)
    if runs and x_end == 1e300 and cond < 1e3:
        stop = UntilTEvent(eq, t_i + 0.01 / d['H']) if clock == 't' else UntilNEvent(eq, d['N'] + 0.01)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            b = solve(ic, events=[stop, CollapseEvent(eq)], rtol=1e-9, atol=1e-14, method='RK45')
        mon.check('first sample', b.x[0] == ic.x_ini and np.array_equal(b.y[:, 0], y0), x=b.x[0], y=b.y[:, 0], y0=y0)
        for k in want:
            mon.check('first sample', np.ravel(getattr(b, k))[0] == y0[eq.idx[k]], name=k)
        mon.close('first sample', b._N[0], d['N'], rtol=1e-8, atol=1e-9, what='_N', **info)
        mon.close('first sample', b.H[0], d['H'], rtol=1e-7 * cond, what='H', **info)
        om = -K * math.exp(-2 * d['N']) / d['H']**2
        mon.close('first sample', b.Omega_K[0], om, rtol=1e-6 * cond, what='Omega_K', **info)
        # running again gives the same start: the initial conditions are reusable
        y1 = np.zeros(len(eq.idx))
        ic(y0=y1, rtol=1e-10, atol=1e-12)
        mon.check('state', np.array_equal(y0, y1), what='second call')
    # contradictory or impossible requests
    bad = {}
    if par == 'N_i':
        bad['both'] = dict(a, Omega_Ki=0.3 * (-K or 1))
    else:
        bad['both'] = dict(a, N_i=1.0)
    bad['neither'] = {k: v for k, v in a.items() if k not in ('N_i', 'Omega_Ki')}
    if K > 0:
        c = 3 if s['ic'] == 'SR' else 2
        b_ = {k: v for k, v in a.items() if k not in ('N_i', 'Omega_Ki')}
        b_['N_i'] = 0.5 * math.log(c / d['V']) - float(10 ** rng.uniform(-3, 1))
        bad['closed too small'] = b_
    if K < 0:
        b_ = {k: v for k, v in a.items() if k not in ('N_i', 'Omega_Ki')}
        b_['Omega_Ki'] = float(rng.choice([1.0, 1 + 1e-9, 1.5, 30.0]))
        bad['open Omega_K >= 1'] = b_
    for what, args in bad.items():
        exc = (InflationStartError,) if what.startswith(('closed', 'open')) else (TypeError, AssertionError, ValueError)
        mon.raises('refused', exc, lambda: C(eq, **args), what=what, **info)
    if clock == 'N' and tt:
        q = {k: v for k, v in a.items() if k != 't_i'}
        mon.raises('refused', (AssertionError, TypeError, ValueError), lambda: C(eq, **q)(y0=np.zeros(len(eq.idx))), what='time tracked without start', **info)
    if te:
        q = {k: v for k, v in a.items() if k != 'eta_i'}
        mon.raises('refused', (AssertionError, TypeError, ValueError), lambda: C(eq, **q)(y0=np.zeros(len(eq.idx))), what='conformal time tracked without start', **info)
    if K:
        # a curvature density of the wrong sign never becomes a usable state
        q = {k: v for k, v in a.items() if k not in ('N_i', 'Omega_Ki')}
        q['Omega_Ki'] = float(K * rng.uniform(0.01, 0.9))
        try:
            with np.errstate(all='ignore'):
                z = C(eq, **q)
            mon.check('refused', not (np.isfinite(z.N_i) and np.isfinite(z.H_i)), what='wrong sign', N_i=z.N_i, Omega_Ki=q['Omega_Ki'], **info)
        except Exception:
            mon.check('refused', True)
    mon.obs('initial conditions')
    mon.sample(pot=repr(P), K=K, clock=clock, ic=s['ic'], y0=y0, N_i=ic.N_i, Omega_Ki=ic.Omega_Ki)
