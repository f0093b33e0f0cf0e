"""Random background scenarios: own initial state, own reference, and the real objects of the library under test."""
import math
import numpy as np
from .pots import Pot, random_pot
from . import flow

SMOOTH = ['Monomial', 'Linear', 'Quadratic', 'Cubic', 'Quartic', 'Starobinsky', 'Natural', 'DoubleWell', 'DoubleWell2', 'DoubleWell4',
          'Tmodel', 'RadionGauge', 'RadionGauge2']


def random_scenario(rng, kinds=SMOOTH, K=None, clock=None, ic=None, N=(58, 75), normalise=True, feature=False, method=None, kd_N=8):
    """JSON description of one background run that inflates for roughly N e-folds."""
    for _ in range(200):
        kind = kinds[int(rng.integers(len(kinds)))]
        P = random_pot(rng, kind, Lambda=1.0, weak=True)
        if P.kind == 'Monomial' and P.kw['p'] < 0.6 or P.kind == 'Tmodel' and P.kw['p'] < 1:
            continue
        if P.kind == 'RadionGauge' and P.kw['p'] < 1.5:
            continue
        if normalise:
            base = Pot('Starobinsky', 1.0) if kind.startswith('Starobinsky') else P
            Q = base.with_As(10 ** rng.uniform(-9.3, -8.2))
            if Q is None:
                continue
            P.Lambda = Q.Lambda
        else:
            P.Lambda = float(10 ** rng.uniform(-3, -1))
        s = {'pot': P.spec()}
        s['K'] = int(rng.integers(-1, 2)) if K is None else int(K)
        s['clock'] = ['t', 'N'][int(rng.integers(2))] if clock is None else clock
        s['ic'] = ['SR', 'IS'][int(rng.integers(2))] if ic is None else ic
        if s['K'] != 0 and ic is None:
            s['ic'] = 'IS'
        want = float(rng.uniform(*N)) + (kd_N if s['ic'] == 'IS' else 0)
        base = Pot('Starobinsky', P.Lambda) if kind.startswith('Starobinsky') else P
        phi = base.phi_of_N(want)
        if phi is None:
            continue
        if (kind == 'Natural' or kind.startswith('DoubleWell')) and P.kw['phi0'] - phi < 1e-4 * P.kw['phi0']:
            continue
        s['phi_i'] = float(phi)
        V = P.VdV(phi)[0]
        if s['K'] == 0:
            s['N_i'] = float(rng.choice([0.0, 5.0, float(np.round(rng.uniform(-3, 20), 3))]))
        elif rng.random() < 0.6:
            om = 10 ** rng.uniform(-2.5, 0.6)
            s['Omega_Ki'] = float(-om if s['K'] > 0 else min(om, 0.95))
        else:
            k = 3 if s['ic'] == 'SR' else 2
            s['N_i'] = float(0.5 * math.log(k / V * max(s['K'] + 10 ** rng.uniform(-0.4, 2.5), 0.3)))
        d = initial_state(s)
        if d is None:
            continue
        H = d['H']
        s['t_i'] = float(np.round(10 ** rng.uniform(-3, 0) / H, 6))
        s['method'] = method or ['DOP853', 'RK45', 'DOP853', 'LSODA' if s['ic'] == 'SR' else 'RK45'][int(rng.integers(4))]
        s['rtol'], s['atol'] = 1e-11, 1e-13
        return s
    raise RuntimeError('no scenario')


def initial_state(s):
    """(phi, dphidt, N, H, Omega_K) demanded by the documented initial conditions (own formulas)."""
    P, K = Pot.from_spec(s['pot']), s['K']
    V, dV = P.VdV(s['phi_i'])
    c = 3 if s['ic'] == 'SR' else 2           # H^2 = V/c - K/a^2
    if 'N_i' in s:
        N = s['N_i']
    else:
        om = s['Omega_Ki']
        x = c / V * (K - K / om)
        if x <= 0:
            return None
        N = 0.5 * math.log(x)
    H2 = V / c - K * math.exp(-2 * N)
    if H2 <= 0:
        return None
    H = math.sqrt(H2)
    k = K * math.exp(-2 * N)
    u = -dV / (3 * H) if s['ic'] == 'SR' else -math.sqrt(V)
    u *= s.get('boost', 1.0)                  # kinetically dominated start: inflation begins later
    q = u / H
    # the state handed to the integrator is (phi, dphi/dt, N) or (phi, dphi/dN); its exact Hubble rate follows from Friedmann
    if s['clock'] == 'N' and 'boost' not in s:
        Ht = math.sqrt((V / 3 - k) / (1 - q * q / 6))
        u = q * Ht
    else:
        Ht = math.sqrt((u * u / 2 + V) / 3 - k)
        q = u / Ht
    return dict(phi=s['phi_i'], dphidt=u, dphidN=q, N=N, H_i=H, H=Ht, V=V, dV=dV, Omega_Ki=-k / H2, aH_i=H * math.exp(N))


def make_equations(s, cls=None, **kw):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    pot = Pot.from_spec(s['pot']).make()
    if s['clock'] == 't':
        return (cls or InflationEquationsT)(K=s['K'], potential=pot, **kw)
    return (cls or InflationEquationsN)(K=s['K'], potential=pot, **kw)


def make_ic(s, eq, **kw):
    from primpy.initialconditions import SlowRollIC, InflationStartIC
    if 'boost' in s:
        d = initial_state(s)
        return state_ic(eq, d['phi'], d['dphidt'], d['N'], d['H'], t=s['t_i'], eta=s.get('eta_i', 0.0))
    C = SlowRollIC if s['ic'] == 'SR' else InflationStartIC
    a = {'N_i': s['N_i']} if 'N_i' in s else {'Omega_Ki': s['Omega_Ki']}
    if s['clock'] == 't' or getattr(eq, 'track_time', False):
        a['t_i'] = s['t_i']
    a.update(kw)
    return C(eq, phi_i=s['phi_i'], **a)


def std_events(eq, s=None):
    from primpy.events import InflationEvent, CollapseEvent
    return [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True), CollapseEvent(eq)]


def run(s, eq=None, events=None, ic=None, **over):
    from primpy.solver import solve
    eq = eq or make_equations(s)
    ic = ic or make_ic(s, eq)
    ev = std_events(eq, s) if events is None else events
    kw = dict(method=s.get('method', 'DOP853'), rtol=s.get('rtol', 1e-11), atol=s.get('atol', 1e-13))
    kw.update(over)
    return solve(ic=ic, events=ev, **kw)


def reference(s, past_end=0.0, rtol=1e-12):
    d = initial_state(s)
    P = Pot.from_spec(s['pot'])
    return flow.Ref(P, s['K'], d['phi'], d['dphidt'], d['N'], t=s.get('t_i', 0.0), eta=s.get('eta_i', 0.0), rtol=rtol, past_end=past_end)


def dphidt_of(b):
    return b.dphidt if hasattr(b, 'dphidt') else b.dphidN * b.H


def state_ic(eq, phi, dphidt, N, H, t=0.0, eta=None, x_end=1e300):
    """User-defined initial conditions: an arbitrary physical state."""
    from primpy.initialconditions import InitialConditions

    class StateIC(InitialConditions):
        def __init__(self, equations):
            super().__init__(equations=equations)
            self.phi_i, self.N_i, self.t_i, self.eta_i, self.x_end = phi, N, t, eta, x_end
            self.x_ini = t if equations.independent_variable == 't' else N

        def __call__(self, y0, **kw):
            q = self.equations
            y0[q.idx['phi']] = phi
            if q.independent_variable == 't':
                y0[q.idx['dphidt']] = dphidt
                y0[q.idx['_N']] = N
            else:
                y0[q.idx['dphidN']] = dphidt / H
            if 't' in q.idx:
                y0[q.idx['t']] = t
            if 'eta' in q.idx:
                y0[q.idx['eta']] = eta
    return StateIC(eq)


def grid_N(ref, n, extra=()):
    """even e-fold grid inside the run (for solutions sampled alike in both time variables)."""
    return np.linspace(ref.N0, ref.N_end - 1e-3, n)


# ---------------------------------------------------------------------------------------------------------------
# own units and quantities of a solution, from its state only
# ---------------------------------------------------------------------------------------------------------------
from scipy import constants as _c
M_RED = math.sqrt(_c.hbar * _c.c / (8 * math.pi * _c.G))          # reduced Planck mass in kg
M_GEV = M_RED * _c.c**2 / (1e9 * _c.e)                            # and in GeV
L_RED = _c.hbar / (M_RED * _c.c)                                  # reduced Planck length in m
MPC = 1e6 * _c.parsec
T_RED = M_RED * _c.c**2 / _c.k                                    # and temperature in K
LP_MPC = L_RED / MPC
K_PIVOT = 0.05
T_CMB = 2.72548
G_S0 = 2 + 7 / 8 * 2 * 3.044 * 4 / 11


class Own:
    """H, ln(aH) and its slope at the samples of a solution b, from phi, velocity and e-folds."""

    def __init__(self, b, P, K):
        self.N = np.asarray(b._N, dtype=float)
        self.phi = np.asarray(b.phi, dtype=float)
        V = np.array([P.VdV(p)[0] for p in self.phi])
        k = K * np.exp(-2 * self.N)
        if hasattr(b, 'dphidt'):
            u = np.asarray(b.dphidt, dtype=float)
            H2 = (u**2 / 2 + V) / 3 - k
        else:
            q = np.asarray(b.dphidN, dtype=float)
            H2 = (V / 3 - k) / (1 - q**2 / 6)
            u = q * np.sqrt(H2)
        self.V, self.u, self.H = V, u, np.sqrt(H2)
        self.laH = self.N + np.log(self.H)
        self.slope = 1 - u**2 / (2 * H2) + k / H2          # d ln(aH) / dN
        self.acc = V - u**2

    def laH_at(self, N):
        """cubic Hermite interpolation and the error of a linear interpolation on the same samples."""
        i = int(np.clip(np.searchsorted(self.N, N) - 1, 0, self.N.size - 2))
        h = self.N[i + 1] - self.N[i]
        x = (N - self.N[i]) / h
        a, b = self.laH[i], self.laH[i + 1]
        c, d = self.slope[i] * h, self.slope[i + 1] * h
        v = a + x * (c + x * (3 * (b - a) - 2 * c - d + x * (2 * (a - b) + c + d)))
        lin = a + x * (b - a)
        return v, abs(v - lin) + 1e-3 * h * abs(self.slope[i + 1] - self.slope[i]), self.slope[i]


def calibrate_somehow(b, K, rng, frac=(.3, .8), **kw):
    """put the pivot somewhere into the inflating part of b (which always works unless the run is exotic)."""
    from primpy.exceptionhandling import InsufficientInflationError
    n = float(b._N_end - b._N[np.argmax(b.inflation_mask)])
    Ns = float(b._N_end - rng.uniform(*frac) * n)
    try:
        if K == 0:
            b.calibrate_scale_factor(N_star=float(b._N_end - Ns), **kw)
        else:
            h = float(rng.uniform(.6, .8))
            laH = float(np.interp(Ns, b._N, b._logaH))
            b.calibrate_scale_factor(Omega_K0=-K * (299792.458 / (h * 100 * math.exp(laH) / K_PIVOT))**2, h=h, **kw)
    except InsufficientInflationError:
        return False
    return True
