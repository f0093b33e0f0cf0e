"""C18: standard Big-Bang functions against the Friedmann equation."""
import copy
import math
import warnings
import numpy as np
from scipy import constants as sc, integrate
from .. import bg

PROPERTY = 'C18'
RULE = ('random present-day parameters (h, Omega_m0, Omega_K0 of both signs and zero), scale factors from before nucleosynthesis to the future, every unit; '
        'own constants, own Friedmann equation, own quadrature. Non-trivial = distinct (curvature sign, unit, quantity, era).')
REQUIRED = {'H0': 100, 'a0': 100, 'Hubble': 3000, 'horizon': 3000, 'conformal time': 200, 'dividing lines': 200, 'refused': 200, 'recollapse': 50,
            'constants': 10, 'conformal ratio': 40, 'reheating slope': 100}


def cases(rng, tier):
    n = 32 if tier == 'quick' else 500
    return [dict(bg.random_scenario(rng, kinds=[k for k in bg.SMOOTH if k != 'Linear'], K=[0, 1, -1][i % 3], N=(50, 75), clock='tN'[i // 3 % 2], method='DOP853'),
                 kind='ratio', seed=int(rng.integers(2**31))) for i in range(n)] + \
        [{'kind': 'cosmo', 'seed': int(rng.integers(2**31)), 'n': 20, 'run': i % 4 == 0} for i in range(n)]


G, C, HB, KB = sc.G, sc.c, sc.hbar, sc.k
MPC = 1e6 * sc.parsec
TP = math.sqrt(8 * math.pi * G * HB / C**5)
LP = TP * C
RHO_G = math.pi**2 / 15 * (KB * 2.72548)**4 / (HB**3 * C**5)          # kg / m^3
RHO_R = RHO_G * (1 + 7 / 8 * 3.044 * (4 / 11) ** (4 / 3))


def min_f(Om, OL, up):
    """min of a^3 E^2 = Om + OK a + OL a^3 over a>1 (up) or a<1."""
    OK = 1 - Om - OL
    f = lambda a: Om + OK * a + OL * a**3
    cand = [f(1.0)]
    if OL != 0 and -OK / (3 * OL) > 0:
        a = math.sqrt(-OK / (3 * OL))
        if (a > 1) == up:
            cand.append(f(a))
    if up and (OL < 0 or OL == 0 and OK < 0):
        cand.append(-1.0)
    return min(cand)


def run_case(case, mon):
    from primpy import bigbang as bb, units, parameters as par
    from primpy.exceptionhandling import BigBangError, BigBangWarning
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'ratio':
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return ratio(case, mon, rng)
    mp = math.sqrt(HB * C / (8 * math.pi * G))
    mon.close('constants', [units.mp_kg, units.tp_s, units.lp_m, units.Tp_K, units.mp_GeV, units.tp_iGeV, units.lp_iGeV, units.Mpc_m, units.a_B],
              [mp, TP, LP, mp * C**2 / KB, mp * C**2 / (1e9 * sc.e), 1e9 * sc.e * TP / HB, 1e9 * sc.e * LP / (HB * C), MPC, math.pi**2 * KB**4 / (15 * HB**3 * C**3)], rtol=1e-12)
    mon.close('constants', [units.lp_iGeV * units.mp_GeV, units.tp_iGeV * units.mp_GeV], 1.0, rtol=1e-12)
    mon.close('constants', [par.K_STAR, par.K_STAR_lp, par.T_CMB_Tp, par.T_nu_K, par.T_nu_Tp, par.rho_gamma0_kg_im3, par.rho_r0_kg_im3, par.rho_nu0_kg_im3, par.rho_r0_mp_ilp3, par.z_BBN],
              [0.05, 0.05 / MPC * LP, 2.72548 * KB / (mp * C**2), 2.72548 * (4 / 11)**(1 / 3), 2.72548 * (4 / 11)**(1 / 3) * KB / (mp * C**2), RHO_G, RHO_R, RHO_R - RHO_G, RHO_R / mp * LP**3, 1e9], rtol=1e-11)
    mon.close('constants', par.g0, 2 + 7 / 4 * 3.044 * 4 / 11, rtol=1e-12)
    for _ in range(case['n']):
        h = float(rng.uniform(0.3, 1.2))
        K = int(rng.integers(-1, 2))
        OK = 0 if K == 0 else float(-K * 10 ** rng.uniform(-9, -0.7))
        Om = float(rng.uniform(0.05, 0.9))
        H0 = h * 1e5 / MPC
        Or = RHO_R / (3 * H0**2 / (8 * math.pi * G))
        OL = 1 - Or - Om - OK
        mon.close('H0', [bb.get_H0(h), bb.get_H0(h, units='planck'), bb.get_H0(h, units='SI'), bb.get_H0(h, units='H0')], [H0 * TP, H0 * TP, H0, 100 * h], rtol=1e-12)
        mon.close('H0', [bb.get_Omega_r0(h), bb.get_rho_crit_kg_im3(h)], [Or, 3 * H0**2 / (8 * math.pi * G)], rtol=1e-11)
        if K:
            a0 = C / (H0 * math.sqrt(abs(OK)))        # metres
            mon.close('a0', [bb.get_a0(h, OK), bb.get_a0(h, OK, units='planck'), bb.get_a0(h, OK, units='SI'), bb.get_a0(h, OK, units='Mpc')],
                      [a0 / LP, a0 / LP, a0, a0 / MPC], rtol=1e-11, OK=OK)
            a0 = a0 / LP
        else:
            a0 = 1.0
            mon.close('a0', bb.get_a0(h, 0), 1.0, what='flat')
        mon.close('a0', bb.get_N_BBN(h, OK), math.log(a0 / (1 + 1e9)), rtol=1e-10)
        N0 = math.log(a0)
        era = rng.uniform(-45, 0, 20)
        N = N0 + np.concatenate([era, rng.uniform(-3, 0.0, 5), [0.0]])
        x = np.exp(-(N - N0))
        E2 = Or * x**4 + Om * x**3 + OK * x**2 + OL
        sound = min_f(Om, OL, False) > 1e-3 and np.all(E2 > 0)
        if sound:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                for u, s in (('planck', H0 * TP), ('SI', H0), ('H0', 100 * h)):
                    mon.close('Hubble', bb.Hubble_parameter(N, Om, OK, h, units=u), s * np.sqrt(E2), rtol=1e-8, unit=u, K=K)
                    mon.close('Hubble', bb.Hubble_parameter(float(N[3]), Om, OK, h, units=u), s * math.sqrt(E2[3]), rtol=1e-8, unit=u, K=K, what='scalar')
                    mon.seen('H', K, u)
                mon.close('Hubble', bb.Hubble_parameter(N, Om, OK, h), H0 * TP * np.sqrt(E2), rtol=1e-8, K=K, what='default unit')
                R = C / H0 * x / np.sqrt(E2)                     # a0/a * c/H, metres
                for u, s in (('planck', LP), ('SI', 1.0), ('Mpc', MPC)):
                    mon.close('horizon', bb.comoving_Hubble_horizon(N, Om, OK, h, units=u), R / s, rtol=1e-8, unit=u, K=K)
                    mon.seen('cHH', K, u)
                mon.close('horizon', bb.comoving_Hubble_horizon(N, Om, OK, h), R / LP, rtol=1e-8, K=K, what='default unit')
                warned = [i for i in w if issubclass(i.category, BigBangWarning)]
            m = min_f(Om, OL, True)
            if abs(m) > 1e-2 and abs(OL) > 1e-3:
                mon.check('recollapse', bool(warned) == (m < 0), Om=Om, OL=OL, OK=OK, warned=len(warned))
            # conformal time
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                Ns = N0 - float(rng.uniform(5, 60))
                Ne = N0 - float(rng.choice([0.0, rng.uniform(0, 4)]))
                want = eta(Ns, Ne, N0, Or, Om, OK, OL) / (H0 * TP) / a0
                got = bb.conformal_time(Ns, Ne, Om, OK, h)
                mon.close('conformal time', got[0], want, rtol=1e-5, atol=1.5e-8, K=K, Ns=Ns - N0, Ne=Ne - N0)
                arr = bb.conformal_time(Ns, np.array([Ne - 1, Ne]), Om, OK, h)
                mon.close('conformal time', arr, [eta(Ns, Ne - 1, N0, Or, Om, OK, OL) / (H0 * TP) / a0, want], rtol=1e-5, atol=1.5e-8, K=K, what='array')
                mon.seen('eta', K, int(Ns - N0) // 10)
        # refused: no Big Bang
        Omb = float(rng.uniform(0.02, 1.5))
        OLb = float(bb.no_Big_Bang_line(Omb)) + float(rng.uniform(0.02, 1.0))
        mon.raises('refused', BigBangError, lambda: bb.Hubble_parameter(N0, Omb, 1 - Omb - OLb - Or, h), what='no big bang', Om=Omb, OL=OLb)
        for u in ('Mpc', 'planck ', 'eV', ''):
            mon.raises('refused', NotImplementedError, lambda: bb.get_H0(h, units=u), unit=u)
        mon.raises('refused', NotImplementedError, lambda: bb.get_a0(h, 0.01, units='H0'))
        mon.raises('refused', NotImplementedError, lambda: bb.Hubble_parameter(0.0, 0.3, 0, h, units='Mpc'))
        mon.raises('refused', NotImplementedError, lambda: bb.comoving_Hubble_horizon(0.0, 0.3, 0, h, units='km'))
        mon.raises('refused', ValueError, lambda: bb.no_Big_Bang_line(-Om))
        mon.raises('refused', ValueError, lambda: bb.expand_recollapse_line(-Om))
        mon.raises('refused', TypeError, lambda: bb.conformal_time(-10.0, [0.0], Om, OK, h))
        # dividing lines: just above and just below
        for Ox in (Omb, float(rng.uniform(0.01, 0.5)), float(rng.uniform(0.5, 3)), 0.5, 1.0):
            L = float(bb.no_Big_Bang_line(Ox))
            d = 1e-4 * (1 + L)
            mon.check('dividing lines', min_f(Ox, L - d, False) > 0 > min_f(Ox, L + d, False), line='no Big Bang', Om=Ox, L=L)
            L = float(bb.expand_recollapse_line(Ox))
            d = 1e-6 if Ox <= 1 else max(1e-2 * L, 1e-7)
            mon.check('dividing lines', min_f(Ox, L + d, True) > 0 and min_f(Ox, L - d, True) < 0, line='recollapse', Om=Ox, L=L)
        mon.close('dividing lines', [bb.no_Big_Bang_line(0), bb.expand_recollapse_line(0)], [1.0, 0.0])
        # reheating slope
        w, dN, Nend, cend = rng.uniform(-0.3, 1), rng.uniform(0.1, 30), rng.uniform(50, 80), rng.uniform(-5, 60)
        got = bb.get_w_delta_reh(Nend, Nend + dN, cend, cend + (1 + 3 * w) / 2 * dN)
        mon.close('reheating slope', got, [w, dN], rtol=1e-9, atol=1e-9 / dN * 60)
    mon.obs('cosmologies', case['n'])
    mon.sample(h=h, Om=Om, OK=OK, N=N[:3], H=H0 * TP * np.sqrt(E2[:3]) if sound else None)


def eta(N1, N2, N0, Or, Om, OK, OL):
    """a0 H0 * conformal time by own quadrature in the scale factor (substitution a = exp)."""
    f = lambda n: math.exp(-(n - N0)) / math.sqrt(Or * math.exp(-4 * (n - N0)) + Om * math.exp(-3 * (n - N0)) + OK * math.exp(-2 * (n - N0)) + OL)
    ys = np.linspace(N1, N2, max(4, int((N2 - N1) / 2) + 1))
    return sum(integrate.quad(f, a, b, epsabs=0, epsrel=1e-11)[0] for a, b in zip(ys[:-1], ys[1:]))


def ratio(case, mon, rng):
    """conformal time before and after the end of inflation, from real runs in the three geometries; only the calibrated universe counts, not the number of e-folds a run happened to start with."""
    from primpy import bigbang as bb
    K = case['K']
    ref = bg.reference(case)
    if not ref.ok or ref.N_end is None or ref.N_end - ref.N0 < 40:
        mon.obs('short')
        return
    q = np.abs(ref.at(ref.N0 + np.linspace(0, 2, 400))['dphidt'] / ref.at(ref.N0 + np.linspace(0, 2, 400))['H'])
    if case['clock'] == 'N' and K and q.max() > 2.35:
        mon.obs('0/0 of the Friedmann equation in e-folds')
        return
    eqs = bg.make_equations(case, track_eta=True)
    full = bg.run(case, eq=eqs, ic=bg.make_ic(case, eqs, eta_i=float(rng.normal())))
    if not np.isfinite(full._N_end) or not np.isfinite(full._N_beg) or not np.any(full.inflation_mask):
        mon.obs('no inflation')
        return
    h, Om = float(rng.uniform(.5, .9)), float(rng.uniform(.1, .6))
    H0 = h * 1e5 / MPC
    Or = RHO_R / (3 * H0**2 / (8 * math.pi * G))
    if K == 0:
        OK = 0.
        full.calibrate_scale_factor(N_star=float(rng.uniform(.4, .9)) * full.N_tot)
    else:
        OK = -K * float(10 ** rng.uniform(-6, -2))
        full.calibrate_scale_factor(Omega_K0=OK, h=h)
    OL = 1 - Or - Om - OK
    if min_f(Om, OL, False) < 1e-3 or min_f(Om, OL, True) < 1e-2:
        return
    # conformal time since the start of the run in units of the calibrated scale factor, from the recorded e-folds and Hubble rate
    a0 = 1. if K == 0 else C / (H0 * math.sqrt(abs(OK))) / LP
    shift = float(full.N[0] - full._N[0])
    mon.close('conformal ratio', math.log(full.a0), math.log(a0), atol=1e-10, rtol=0, what='scale factor today', K=K)
    start = float(full.eta[0])
    before = (float(full.eta[-1]) - start) * math.exp(-shift)
    late = eta(float(full.N_end), math.log(a0), math.log(a0), Or, Om, OK, OL) / (H0 * TP) / a0
    got = bb.conformal_time_ratio(Om, OK, h, full)
    mon.close('conformal ratio', got, before / late, rtol=1e-4 + 2e-8 / late, K=K, clock=case['clock'], N0=float(full._N[0]))
    # own quadrature of the recorded trajectory (accurate where the run takes small steps)
    from scipy.interpolate import CubicSpline
    s = CubicSpline(full._N, np.log(full.H))
    x = np.linspace(full._N[0], full._N[-1], 40001)
    y = np.exp(-x - s(x) - shift)
    own = integrate.simpson(y, x=x)
    mon.close('conformal ratio', got, own / late, rtol=2e-2, K=K, clock=case['clock'], what='from the recorded Hubble rate')
    # a run that goes on from an earlier state: only its last conformal time counts
    back = copy.copy(full)
    back.eta = np.array([start, start - float(rng.uniform(.1, 2)) * (float(full.eta[-1]) - start)])
    mon.close('conformal ratio', bb.conformal_time_ratio(Om, OK, h, full, back), (float(full.eta[-1]) - float(back.eta[-1])) * math.exp(-shift) / late, rtol=1e-4 + 2e-8 / late, K=K, what='with backward run')
    mon.seen('ratio', K, case['clock'], int(math.log10(before / late)))
