"""C14: slow-roll approximations of the spectra against the exact spectra, order by order."""
import math
import warnings
import numpy as np
from scipy import integrate
from .. import bg, flow, modes
from .. import jets as J
from ..pots import Pot

PROPERTY = 'C14'
RULE = ('(a) user-defined potentials ln V = f(sqrt(lam) phi) with random f whose slow-roll parameters of order n scale like lam^n, lam from 0.002 to 0.04; (b) the library potentials. The exact spectra are obtained by own '
        'integration of the mode equations to 1e-11; an approximation of order n may differ from them by at most C lam^(n+1); (c) the limit lam -> 0 of error/lam^n, extrapolated from lam = 0.028, 0.014, 0.007, must vanish for every method, order and spectrum, so that every coefficient of the expansions counts. Non-trivial = distinct (method, order, scalar or tensor, decade of lam, source).')
REQUIRED = {'amplitude': 1000, 'away from pivot': 2000, 'index': 500, 'definitions': 500, 'limit': 150}
TIMEOUT = 200

METHODS = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('LLMS', 2), ('STE', 2), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)]


def cases(rng, tier):
    n = 26 if tier == 'quick' else 500
    out = []
    for i in range(n):
        out.append(dict(kind='scaled', seed=int(rng.integers(2**31)), lam=float([.002, .006, .015, .04][i % 4] * rng.uniform(.8, 1.2)), clock='tN'[i // 4 % 2]))
    for i in range(12 if tier == 'quick' else 150):
        out.append(dict(kind='limit', seed=int(rng.integers(2**31)), clock='tN'[i % 2]))
    kinds = [k for k in bg.SMOOTH if k != 'Linear']
    for i in range(n // 2):
        s = bg.random_scenario(rng, kinds=kinds, K=[0, 0, 1, -1][i % 4], N=(62, 76), clock='tN'[i // 4 % 2], method='DOP853')
        s.update(kind='family', seed=int(rng.integers(2**31)))
        out.append(s)
    return out


# ------------------------------------------------------------------------------------------------------------------
class Scaled:
    """V = L^4 exp(f(sqrt(lam) phi)), f a polynomial, with a cliff far away from the pivot that ends inflation."""

    def __init__(self, c, lam, L, phic, s):
        self.c, self.lam, self.Lambda, self.phic, self.s = c, lam, L, phic, s
        self.kind = 'Scaled'

    def V(self, x, cliff=False):
        r = math.sqrt(self.lam)
        f, y = 0.0, x * r
        for k in range(len(self.c), 0, -1):
            f = (f + (-self.c[k - 1] / math.factorial(k))) * y
        v = J.exp(f) * self.Lambda**4
        if cliff:
            v = v * (1 - J.exp((x - self.phic) * (1 / self.s)))
        return v

    def jet(self, phi, order=6):
        return self.V(J.Jet.var(phi, order))

    def V012(self, phi):
        d = self.V(J.Dual2(float(phi), 1.0))
        return d.v, d.d, d.e

    def VdV(self, phi):
        d = self.V(J.Dual(float(phi), 1.0))
        return d.v, d.d

    def make(self):
        from primpy.potentials import InflationaryPotential
        own = self

        class UserPotential(InflationaryPotential):
            tag, name, tex, perturbation_ic = 'usr', 'UserPotential', 'user', (1, 0, 0, 1)

            def __init__(self):
                super().__init__(Lambda=own.Lambda)

            def jet(self, phi, n):
                j = own.V(J.Jet.var(np.asarray(phi, dtype=float), n), cliff=True)
                return np.asarray(j.deriv(n), dtype=float)

            def V(self, phi):
                j = own.V(J.Jet.var(np.asarray(phi, dtype=float), 1), cliff=True)
                return np.asarray(j.c[0], dtype=float)

            def dV(self, phi):
                return self.jet(phi, 1)

            def d2V(self, phi):
                return self.jet(phi, 2)

            def d3V(self, phi):
                return self.jet(phi, 3)

            def d4V(self, phi):
                return self.jet(phi, 4)

            def none(self, *a):
                raise NotImplementedError
            inv_V = get_epsilon_1V = get_epsilon_2V = get_epsilon_3V = get_epsilon_4V = sr_N2phi = sr_phi2N = phi_end = none
        return UserPotential()


def scaled_run(case, rng):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.initialconditions import SlowRollIC
    from primpy.events import InflationEvent
    from primpy.solver import solve
    lam, r = case['lam'], math.sqrt(case['lam'])
    before, after = 17., 9.
    for _ in range(100):
        c = [float(rng.uniform(.6, 1.3))] + [float(x) for x in rng.uniform(-1, 1, 4)]
        slope = lambda y: sum(c[k] * y**k / math.factorial(k) for k in range(5))
        if min(slope(y) for y in np.linspace(-1.2 * lam * 20, 1.2 * lam * 12, 50)) < .3:
            continue
        f = lambda n, y: [r * slope(r * y[0])]
        a = integrate.solve_ivp(f, (0, -before), [0.], rtol=1e-8).y[0][-1]
        b = integrate.solve_ivp(f, (0, after), [0.], rtol=1e-8).y[0][-1]
        break
    P = Scaled(c, lam, 10 ** float(rng.uniform(-3.5, -2)), float(b), float(b / 40))
    pot = P.make()
    V = P.VdV(a)[0]
    eq = (InflationEquationsT if case['clock'] == 't' else InflationEquationsN)(K=0, potential=pot)
    N0 = float(rng.uniform(0, 5))
    kw = dict(t_i=1 / math.sqrt(V)) if case['clock'] == 't' else {}
    ev = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
    o = dict(events=ev, method='DOP853', rtol=1e-12, atol=1e-15)
    b0 = solve(SlowRollIC(eq, phi_i=a, N_i=N0, **kw), **o)
    h = float(rng.choice([.02, .01]))
    g = np.arange(b0._N[0], b0._N[-1] - 1e-6, h)
    if case['clock'] == 't':
        from scipy.interpolate import CubicSpline
        g = CubicSpline(b0._N, b0.x)(g)
        g[0] = b0.x[0]
    b = solve(SlowRollIC(eq, phi_i=a, N_i=N0, **kw), t_eval=g, **o)
    b.calibrate_scale_factor(N_star=after)
    return P, b, h


def family_run(case, mon, rng):
    P, K = Pot.from_spec(case['pot']), case['K']
    try:
        ref = bg.reference(case)
    except ValueError:
        return None
    if not ref.ok or ref.N_end is None or ref.N_end - ref.N0 < 40:
        mon.obs('short')
        return None
    h = .01
    g = np.arange(ref.N0, ref.N_end - 1e-3, h)
    if case['clock'] == 't':
        g = ref.at(g)['t']
        g[0] = case['t_i']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        b = bg.run(case, t_eval=g, rtol=1e-12, atol=1e-15)
        last = min(60, b.N_tot - 12 - (8 if K else 0))
        if last < 25:
            mon.obs('short')
            return None
        Ns = float(rng.uniform(25, last))
        if K == 0:
            b.calibrate_scale_factor(N_star=Ns)
        else:
            own = bg.Own(b, P, K)
            x = b._N_end - Ns
            a0 = math.exp(own.laH_at(x)[0]) / (bg.K_PIVOT * bg.LP_MPC)
            hh = .7
            b.calibrate_scale_factor(Omega_K0=-K * (299792.458 / (100 * hh) / (a0 * bg.LP_MPC))**2, h=hh)
    return P, b, h


def own_epsilon(P, b):
    """flow parameters e1..e4 at the pivot and ln(aH) there (flat)."""
    Nc = float(b._N_cross)
    i = int(np.searchsorted(b._N, Nc))
    j = slice(i - 6, i + 6)
    q = (b.dphidN if hasattr(b, 'dphidN') else b.dphidt / b.H)[j]
    from scipy.interpolate import BarycentricInterpolator as B
    phi = float(B(b._N[j], b.phi[j])(Nc))
    q = float(B(b._N[j], q)(Nc))
    V = P.VdV(phi)[0]
    H = math.sqrt(V / (3 - q * q / 2))
    e = [float(x) for x in flow.Flow(P, phi, q * H, Nc, 0, order=7).hubble_flow(4)]
    return e, phi, q, H, Nc


# ------------------------------------------------------------------------------------------------------------------
LAMS = (.028, .014, .007)


def limit_point(c, lam, clock, N0, Lam, L, h=.01):
    """one member of the family ln V = f(sqrt(lam) phi) with the pivot scale leaving the horizon exactly at phi=0, at a sample of a grid fine enough for interpolation errors not to matter."""
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.initialconditions import SlowRollIC
    from primpy.events import InflationEvent
    from primpy.solver import solve
    r = math.sqrt(lam)
    slope = lambda y: sum(c[k] * y**k / math.factorial(k) for k in range(5))
    f = lambda n, y: [r * slope(r * y[0])]
    a = integrate.solve_ivp(f, (0, -17.), [0.], rtol=1e-8).y[0][-1]
    z = integrate.solve_ivp(f, (0, 9.), [0.], rtol=1e-8).y[0][-1]
    P = Scaled(c, lam, Lam, float(z), float(z / 40))
    pot = P.make()
    eq = (InflationEquationsT if clock == 't' else InflationEquationsN)(K=0, potential=pot)
    kw = dict(t_i=1 / math.sqrt(P.VdV(a)[0])) if clock == 't' else {}

    class Zero:
        direction, terminal, name = 0, False, 'zero'

        def __call__(self, x, y):
            return eq.phi(x, y)
    ev = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True), Zero()]
    o = dict(events=ev, method='DOP853', rtol=1e-13, atol=1e-15)
    b0 = solve(SlowRollIC(eq, phi_i=a, N_i=N0, **kw), **o)
    Nc = float(b0._N_events['zero'][0])
    w, fine = 2.5, h / 8
    lo = Nc - w - h * np.arange(1, int((Nc - w - b0._N[0]) / h))
    up = Nc + w + h * np.arange(1, int((b0._N[-1] - Nc - w) / h))
    nf = int(round(w / fine)) - 1
    j0 = len(lo) + nf
    g = np.concatenate([lo[::-1], Nc + fine * np.arange(-nf, nf + 1), up])
    if clock == 't':
        from scipy.interpolate import CubicSpline
        g = CubicSpline(b0._N, b0.x)(g)
        g[j0] = b0.x_events['zero'][0]
    b = solve(SlowRollIC(eq, phi_i=a, N_i=N0, **kw), t_eval=g, **o)
    b.calibrate_scale_factor(N_star=b._N_end - Nc)
    q = b.dphidN if hasattr(b, 'dphidN') else b.dphidt / b.H
    phi = float(b.phi[j0])
    H = math.sqrt(P.VdV(phi)[0] / (3 - q[j0]**2 / 2))
    e = [float(x) for x in flow.Flow(P, phi, q[j0] * H, Nc, 0, order=7).hubble_flow(4)]
    i0 = int(np.searchsorted(b._N, Nc - 12.5))
    Ps, Pt = modes.flat_spectra(P.V012, b.phi[i0], q[i0], b._N[i0], None, Nc + math.log(H) + L, X0=1000.)
    out = {}
    k = bg.K_PIVOT * np.exp(L)
    for m, n in METHODS:
        for what, ex in (('s', np.log(Ps)), ('t', np.log(Pt))):
            d = np.log((b.P_s_approx if what == 's' else b.P_t_approx)(k, method=m, order=n)) - ex
            if m == 'ARBDS' and n == 3 and what == 's':
                d = d + missing_e4(e, L)
            out[m, n, what] = d / lam**n
    return out, e


def limit(case, mon, rng):
    """an approximation of order n is exact up to terms of order n+1, so error/lam^n tends to zero with lam: every coefficient up to that order is tested, however small its contribution."""
    for _ in range(1000):
        c = [float(rng.uniform(.8, 1.5)), float(rng.choice([-1, 1]) * rng.uniform(.4, 1.3))] + [float(x) for x in rng.uniform(-1.3, 1.3, 3)]
        if min(sum(c[k] * y**k / math.factorial(k) for k in range(5)) for y in np.linspace(-1.2, .72, 50)) > .3:
            break
    L = np.array([-1., 0., 1.])
    R = []
    Lam, N0 = 10 ** float(rng.uniform(-3.5, -2)), float(rng.uniform(0, 5))
    for lam in LAMS:
        o, e = limit_point(c, lam, case['clock'], N0, Lam, L)
        R.append(o)
    mon.tag(source='limit', clock=case['clock'])
    for key in R[0]:
        r3 = 8 / 3 * R[2][key] - 2 * R[1][key] + R[0][key] / 3
        mon.close('limit', r3, [0., 0., 0.], rtol=0, atol=LIMIT[key[1] == 3], method=key[0], order=key[1], spectrum=key[2], c=c, clock=case['clock'], error_over_lam_n=[x[key].tolist() for x in R])
        mon.seen(*key, 'limit', case['clock'])


# at L = -1, 0, 1: what is left of the higher orders after the extrapolation (largest seen over 90 shapes: a third of these)
LIMIT = {False: np.array([1e-2, 2e-3, 4e-3]), True: np.array([3e-2, 5e-3, 1.2e-2])}


ALPHA = 2 - math.log(2) - np.euler_gamma
ZETA3 = 1.2020569031595942


def missing_e4(e, L):
    """the part of the third-order expansion that is proportional to the fourth flow parameter, which the library takes as zero ('TODO')."""
    a, p2 = ALPHA, math.pi**2
    x = e[1] * e[2] * e[3]
    return x * ((16 + 4 * a**3 - a * p2 - 8 * ZETA3) / 24 + (-12 * a**2 + p2) / 24 * L + a / 2 * L**2 - L**3 / 6)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'limit':
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return limit(case, mon, rng)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        r = scaled_run(case, rng) if case['kind'] == 'scaled' else family_run(case, mon, rng)
    if r is None:
        return
    P, b, h = r
    K = case.get('K', 0)
    mon.tag(source=case['kind'] if case['kind'] == 'scaled' else P.kind, clock=case['clock'], K=K)
    e, phi, q, H, Nc = own_epsilon(P, b)
    e1, e2, e3, e4 = e
    lam = max(e1, abs(e2), abs(e2 * e3) ** .5, abs(e2 * e3 * (e3 + e4)) ** (1 / 3))
    if case['kind'] == 'scaled':
        lam = max(lam, case['lam'])
    info = dict(pot=repr(P) if case['kind'] == 'family' else dict(c=P.c, lam=P.lam), clock=case['clock'], K=K, e=e, lam=lam)
    lk = Nc + math.log(H)
    # exact spectra at the pivot and around it
    L = np.array([-2., -1., 0., 1., 2.])
    i0 = int(np.searchsorted(b._N, Nc - 12.5 if K == 0 else Nc - 11))
    q0 = (b.dphidN if hasattr(b, 'dphidN') else b.dphidt / b.H)[i0]
    Ps, Pt = modes.flat_spectra(P.V012, b.phi[i0], q0, b._N[i0], None, lk + L, X0=1000.0 if K == 0 else 300.0)
    mon.obs('exact modes', 10)
    # truncation: interpolation error of the sampled flow parameters, curvature left at horizon exit, accuracy of the solution
    kap = abs(K) * math.exp(-2 * (Nc + math.log(H))) * 30
    floor = 1e-10 + 3 * h**2 * lam**2 + kap + (0 if K == 0 else 3e-9)
    ps = np.polynomial.polynomial.polyfit(L, np.log(Ps), 4)
    pt = np.polynomial.polynomial.polyfit(L, np.log(Pt), 4)
    k = bg.K_PIVOT * np.exp(L)
    dec = round(math.log10(lam) * 2) / 2
    big = abs(e4 * lam) > 1 or abs(e3) > 30
    for m, n in METHODS:
        for what, ex, coef in (('s', np.log(Ps), 1), ('t', np.log(Pt), 0)):
            f = b.P_s_approx if what == 's' else b.P_t_approx
            with np.errstate(all='ignore'):
                got = np.log(f(k, method=m, order=n))
                one = math.log(float(f(bg.K_PIVOT, method=m, order=n)))
            want = ex.copy()
            if m == 'ARBDS' and n == 3 and coef:
                if big:
                    mon.obs('fourth flow parameter too large')
                    continue
                want = want - missing_e4(e, L)
            C = CB[m, n]
            tay = m in ('LLMS', 'ARBDS')
            mon.close('amplitude', one, want[2], rtol=0, atol=C * lam**(n + 1) + floor, method=m, order=n, spectrum=what, ratio=(one - want[2]) / lam**(n + 1), **info)
            mon.close('amplitude', got[2], one, rtol=0, atol=1e-12, what='array or scalar', method=m, order=n, **info)
            grow = (1 + np.abs(L)) ** (n + 1) if tay else np.ones(5)
            mon.close('away from pivot', got, want, rtol=0, atol=C * lam**(n + 1) * grow + floor * (1 + np.abs(L)), method=m, order=n, spectrum=what, ratio=(got - want) / lam**(n + 1), **info)
            mon.seen(m, n, what, dec, case['kind'], K != 0)
    # amplitudes, indices and runnings for the method chosen in the calibration or derived later
    for m, n in METHODS:
        if m == 'ARBDS' and n == 3 and big:
            continue
        with np.errstate(all='ignore'):
            b.derive_approx_power(method=m, order=n)
        got = [float(getattr(b, x)) for x in ('A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r')]
        inf = dict(method=m, order=n, **info)
        mon.close('definitions', [math.log(got[0]), math.log(got[4])], [math.log(float(b.P_s_approx(bg.K_PIVOT, method=m, order=n))), math.log(float(b.P_t_approx(bg.K_PIVOT, method=m, order=n)))],
                  rtol=0, atol=1e-11, what='A_s and A_t are the spectra at the pivot', **inf)
        mon.close('definitions', got[6], got[4] / got[0], rtol=1e-12, what='r', **inf)
        # samples of the spectra belong to the wavenumbers of the samples
        j = np.nonzero(np.abs(np.log(b.k_iMpc / bg.K_PIVOT)) < 2)[0][::20]
        mon.close('definitions', np.log(b.P_scalar_approx[j]), np.log(b.P_s_approx(b.k_iMpc[j], method=m, order=n)), rtol=0, atol=1e-10, what='P_scalar_approx', **inf)
        mon.close('definitions', np.log(b.P_tensor_approx[j]), np.log(b.P_t_approx(b.k_iMpc[j], method=m, order=n)), rtol=0, atol=1e-10, what='P_tensor_approx', **inf)
        C = CB[m, n]
        miss = lam**4 if m == 'ARBDS' and n == 3 else 0
        tol = 3 * C * lam**(n + 1) + floor / h * 10
        d = [0., 0., 0.]
        if m == 'ARBDS' and n == 3:
            z = [missing_e4(e, x) for x in (-1., 0., 1.)]
            d = [(z[2] - z[0]) / 2, z[2] + z[0] - 2 * z[1], 0.]
            tol += abs(e2 * e3 * e4) * .5
        mon.close('index', got[1] - 1, ps[1] - d[0], rtol=0, atol=tol, what='n_s', **inf)
        mon.close('index', got[5], pt[1], rtol=0, atol=tol, what='n_t', **inf)
        mon.close('index', got[2], 2 * ps[2] - d[1], rtol=0, atol=tol + 1e-9 / h**2, what='n_run', **inf)
        # running of the running: third difference of the library's own spectrum over distances larger than the samples
        s = 8 * h
        u = np.log(b.P_s_approx(bg.K_PIVOT * np.exp(s * np.array([-2, -1, 1, 2.])), method=m, order=n))
        third = (u[3] - 2 * u[2] + 2 * u[1] - u[0]) / (2 * s**3)
        mon.close('index', got[3], third, rtol=.1, atol=2e-11 / h**3 * (1 if case['clock'] == 'N' else 5) + 30 * s * lam**4, what='n_runrun', **inf)
    with np.errstate(all='ignore'):
        b.derive_approx_power()
    mon.close('definitions', float(b.A_s), float(b.P_s_approx(bg.K_PIVOT)), rtol=1e-11, what='default method', **info)
    mon.sample(**info, exact=Ps[2], A_s=b.A_s)


# |ln P_approx - ln P_exact| <= C lam^(order+1)
CB = {('CGS', 0): 2.5, ('CGS', 1): 6., ('CGS', 2): 12., ('CGS', 3): 15., ('LLMS', 2): 3., ('STE', 2): 3., ('ARBDS', 1): 6., ('ARBDS', 2): 12., ('ARBDS', 3): 20.}
