"""C11: calibration identities of the scale factor, wavenumbers, lengths and curvature."""
import math
import warnings
import numpy as np
from .. import bg
from ..pots import Pot, FEATURES

PROPERTY = 'C11'
RULE = ('random background (potential, curvature, clock, adaptive or dense samples) calibrated by every route with random settings; all calibrated attributes are compared with own formulas '
        'evaluated on the recorded state. Non-trivial = distinct (family, curvature, time variable, calibration route).')
REQUIRED = {'pivot': 200, 'wavenumbers': 10000, 'today': 200, 'e-folds': 400, 'requested': 100, 'refused': 200, 'set_ns': 10}
TIMEOUT = 100
C_KMS = 299792.458


def cases(rng, tier):
    n = 90 if tier == 'quick' else 2000
    out = []
    for i in range(n):
        K = [0, 1, -1][i % 3]
        s = bg.random_scenario(rng, kinds=bg.SMOOTH + list(FEATURES), K=K, N=(58, 76), clock='tN'[i // 3 % 2])
        s.update(kind='calib', seed=int(rng.integers(2**31)), dense=bool(rng.random() < .5), ns=bool(i % 5 == 0))
        if s['ic'] == 'IS' and rng.random() < .5 and s['method'] != 'LSODA':
            s['boost'] = float(10 ** rng.uniform(0.05, 0.8))
        out.append(s)
    return out


def background(s, mon, rng):
    try:
        ref = bg.reference(s)
    except ValueError:
        return None, None
    if not ref.ok or ref.N_end is None:
        mon.obs('no end of inflation')
        return None, None
    kw = {}
    if s.get('dense'):
        g = np.linspace(ref.N0, ref.N_end - 1e-3, int(rng.integers(1500, 5000)))
        g[0] = ref.N0
        if s['clock'] == 't':
            g = ref.at(g)['t']
            g[0] = s['t_i']
        else:
            kw['eq'] = bg.make_equations(s)
            kw['ic'] = bg.make_ic(s, kw['eq'])
            g[0] = kw['ic'].N_i                     # may be an ulp away from own value
        kw['t_eval'] = g
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        b = bg.run(s, **kw)
    if not np.isfinite(b.N_tot) or b.N_tot < 20:
        mon.obs('short')
        return None, None
    return b, ref


def pivot_wish(b, own, rng, lo=None, hi=None):
    """an uncalibrated number of e-folds at which the pivot may leave the horizon."""
    m = np.nonzero(b.inflation_mask)[0]
    a, c = own.N[m[0]] + 1.0, b._N_end - 2.0
    return float(rng.uniform(a, c))


def omega_k0(K, a0, h):
    return -K * (C_KMS / (100 * h) / (a0 * bg.LP_MPC))**2


def calibrations(b, own, K, rng):
    """[(name, kwargs)] that put the pivot inside inflation."""
    out = []
    h = float(rng.uniform(0.4, 1.0))
    Nx = pivot_wish(b, own, rng)
    laH = own.laH_at(Nx)[0]
    if K == 0:
        out.append(('N_star', dict(N_star=float(b._N_end - Nx))))
        out.append(('N_star default', dict(calibration_method='N_star', N_star=float(b._N_end - pivot_wish(b, own, rng)), Omega_K0=0, h=h)))
    else:
        a0 = math.exp(laH) / (bg.K_PIVOT * bg.LP_MPC)
        out.append(('Omega_K0', dict(Omega_K0=omega_k0(K, a0, h), h=h)))
        out.append(('Omega_K0 rho', dict(calibration_method='Omega_K0', Omega_K0=omega_k0(K, a0, h), h=h, rho_reh_GeV=float(10 ** rng.uniform(0, 14)))))
    # reheating: the pivot place follows
    out.append(('instant', dict(calibration_method='reheating', h=h, g_th=float(10 ** rng.uniform(0.6, 3)))))
    out.append(('w DeltaN', dict(calibration_method='reheating', h=h, w_reh=float(rng.uniform(-0.3, 0.99)), DeltaN_reh=float(rng.uniform(0.1, 25)))))
    out.append(('w rho', dict(calibration_method='reheating', h=h, w_reh=float(rng.uniform(-0.3, 0.99)), rho_reh_GeV=float(10 ** rng.uniform(0, 14)))))
    if K == 0:
        out.append(('DeltaN_minus1', dict(calibration_method='reheating', DeltaN_minus1=float(rng.uniform(-8, 12)))))
    return out


def run_case(case, mon):
    from primpy.exceptionhandling import InsufficientInflationError, PrimpyError
    rng = np.random.default_rng(case['seed'])
    P, K = Pot.from_spec(case['pot']), case['K']
    mon.tag(family=P.kind, K=K, clock=case['clock'], boost='boost' in case)
    b, ref = background(case, mon, rng)
    if b is None:
        return
    own = bg.Own(b, P, K)
    info = dict(pot=repr(P), K=K, clock=case['clock'])
    mon.obs('backgrounds')
    import copy
    for name, kw in calibrations(b, own, K, rng):
        c = bg.run(case, **({'t_eval': b.x.copy()} if False else {})) if False else b
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                c.calibrate_scale_factor(**kw)
            except InsufficientInflationError:
                # only right if the pivot scale is not inside of the inflating samples
                mon.obs('pivot outside')
                insufficient(mon, b, own, K, name, kw, info)
                continue
            except TypeError as e:
                # the approximate spectra (a slow-roll expansion) do not exist where they would be negative; the calibration itself is complete
                x = float(c._N_cross)
                i = int(np.clip(np.searchsorted(own.N, x) - 1, 0, own.N.size - 2))
                dV = P.VdV(own.phi[i])[1]
                sizes = dict(e1=own.u[i]**2 / 2 / own.H[i]**2, d1=-3 - dV / own.H[i] / own.u[i], k=math.exp(-2 * own.laH[i]) * abs(K))
                mon.check('completes', 't(k)<=x' in str(e) and (sizes['e1'] > .08 or abs(sizes['d1']) > .2 or sizes['k'] > .02 or P.kind in FEATURES), what='calibration failed', error=repr(e), sizes=sizes,
                          kw=kw, to_end=b._N_end - x, from_beg=x - b._N_beg, **info)
                mon.obs('no approximation at the pivot')
        judge(mon, c, own, P, K, name, kw, info)
        mon.seen(P.kind, K, case['clock'], name)
    refused(mon, b, K, PrimpyError, InsufficientInflationError, info)
    if K == 0 and case['ns']:
        set_ns(mon, b, own, P, rng, info)
    mon.sample(**info, N_star=b.N_star, N_dagg=b.N_dagg, a0_Mpc=b.a0_Mpc, H_star=b.H_star)


def insufficient(mon, b, own, K, name, kw, info):
    m = b.inflation_mask
    if name.startswith('N_star'):
        mon.check('refused', kw['N_star'] > b.N_tot, what='N_star refused although inflation lasts long enough', N_tot=b.N_tot, kw=kw, **info)
        return
    if name.startswith('Omega'):
        a0 = math.sqrt(-K / kw['Omega_K0']) * C_KMS / (100 * kw['h']) / bg.LP_MPC
        laH = math.log(bg.K_PIVOT * bg.LP_MPC * a0)
        mon.check('refused', not own.laH[m].min() + 1e-6 < laH < own.laH[m].max() - 1e-6, what='pivot refused although it leaves the horizon during inflation', laH=laH, kw=kw, **info)
        return
    # reheating: own estimate of where the pivot is
    V = b.V_end
    N0mNreh_inst = math.log(45 / math.pi**2) / 4 - math.log(bg.G_S0) / 3 + math.log(kw.get('g_th', 100.)) / 12 + math.log(V / (bg.T_CMB / bg.T_RED)**4) / 4
    if name == 'instant':
        d = 0.
    elif name == 'w DeltaN':
        d = kw['DeltaN_reh'] / 4 * (1 - 3 * kw['w_reh'])
    elif name == 'w rho':
        dn = (math.log(1.5 * V) - 4 * math.log(kw['rho_reh_GeV'] / bg.M_GEV)) / 3 / (1 + kw['w_reh'])
        d = dn / 4 * (1 - 3 * kw['w_reh'])
    else:
        d = kw['DeltaN_minus1']
    laH = math.log(bg.K_PIVOT * bg.LP_MPC) + b._N_end + N0mNreh_inst + d
    mon.check('refused', not own.laH[m].min() + 1e-3 < laH < own.laH[m].max() - 1e-3, what='pivot refused although it leaves the horizon during inflation', laH=laH,
              range=[own.laH[m].min(), own.laH[m].max()], kw=kw, **info)


def judge(mon, c, own, P, K, name, kw, info, expected_Nstar=None):
    info = dict(route=name, kw=kw, **info)
    lp = bg.LP_MPC
    Nc = float(c._N_cross)
    # pivot
    laH, err, slope = own.laH_at(Nc)
    mon.close('pivot', float(c._logaH_star), laH, rtol=0, atol=1e-8 + 2 * err, what='ln(aH) at the recorded exit', **info)
    mon.close('pivot', float(c.H_star), math.exp(float(c._logaH_star) - Nc), rtol=1e-10, what='H_star', **info)
    a_star = math.exp(Nc)                 # in units where the curvature is K (curved) or uncalibrated (flat)
    if K == 0:
        a_today = math.exp(-float(c.delta_N_calib))       # today's scale factor in uncalibrated units, as a0=1
        mon.close('today', [c.a0, c.N0, c.Omega_K0], [1, 0, 0], what='flat normalisation', **info)
    else:
        a_today = float(c.a0)
        mon.close('e-folds', c.delta_N_calib, 0, atol=1e-12, what='curved universes are calibrated from the start', **info)
    mon.close('pivot', math.exp(float(c._logaH_star)) / a_today / lp, bg.K_PIVOT, rtol=1e-9, what='pivot in 1/Mpc', **info)
    # e-folds
    mon.close('e-folds', float(c.N_dagg + c.N_star), c.N_tot, rtol=1e-12, what='N_dagg + N_star', **info)
    mon.close('e-folds', [float(c.N_star), float(c.N_dagg)], [c._N_end - Nc, Nc - c._N_beg], rtol=1e-12, atol=1e-10, what='N_star, N_dagg', **info)
    d = float(c.delta_N_calib)
    mon.close('e-folds', [float(c.N_beg), float(c.N_end), float(c.N_cross)], [c._N_beg + d, c._N_end + d, Nc + d], rtol=1e-13, atol=1e-11, what='calibrated e-folds', **info)
    mon.close('e-folds', c.N, own.N + d, rtol=1e-13, atol=1e-11, what='N', **info)
    mon.close('e-folds', float(c.N0), math.log(c.a0), rtol=1e-13, atol=1e-12, what='N0', **info)
    # wavenumbers and lengths
    m = np.asarray(c.inflation_mask)
    cHH = a_today / np.exp(own.laH) * lp
    mon.close('wavenumbers', c.cHH_Mpc, cHH, rtol=1e-8, what='comoving Hubble radius', **info)
    mon.close('wavenumbers', c.k_iMpc, 1 / cHH[m], rtol=1e-8, what='k of the sample', **info)
    mon.close('wavenumbers', c.logk, -np.log(cHH[m]), rtol=0, atol=1e-8, what='logk', **info)
    mon.close('wavenumbers', c._k, np.exp(own.laH[m]), rtol=1e-8, what='_k', **info)
    inside = (own.N > c._N_beg) & (own.N < c._N_end)
    lost = inside & ~m
    mon.check('wavenumbers', not (m & ~inside).any(), what='samples outside inflation', **info)
    # samples may only be dropped where another one has the same wavenumber
    for i in np.nonzero(lost)[0][:5]:
        mon.check('wavenumbers', np.min(np.abs(np.delete(own.laH, i) - own.laH[i])) < 1e-10, what='sample lost', N=own.N[i], **info)
    laH_end = c._N_end + math.log(c.H_end)
    mon.close('wavenumbers', float(c.cHH_end_Mpc), a_today / math.exp(laH_end) * lp, rtol=1e-9, what='cHH at the end', **info)
    mon.close('wavenumbers', math.log(c.V_end / 2) / 2 - (K * math.exp(-2 * c._N_end) / c.V_end), math.log(c.H_end), rtol=0, atol=1e-6 + (K != 0) * 4 * math.exp(-4 * c._N_end) / c.V_end**2, what='end state', **info)
    # today
    mon.close('today', float(c.a0_Mpc), a_today * lp, rtol=1e-9, what='a0 in Mpc', **info)
    if K != 0:
        h = kw['h']
        mon.close('today', float(c.Omega_K0), omega_k0(K, float(c.a0), h), rtol=1e-9, what='Omega_K0 from a0', **info)
        # curvature density scales with the comoving Hubble radius squared
        mon.close('today', c.Omega_K, float(c.Omega_K0) * (100 * h / C_KMS * cHH)**2, rtol=1e-7, what='curvature history', **info)
        mon.check('today', np.sign(c.Omega_K0) == -K, **info)
    # requests
    if 'N_star' in kw:
        mon.close('requested', float(c.N_star), kw['N_star'], rtol=1e-13, what='N_star', **info)
    if kw.get('Omega_K0'):
        mon.close('requested', float(c.Omega_K0), kw['Omega_K0'], rtol=1e-13, what='Omega_K0', **info)


def refused(mon, b, K, PrimpyError, Insufficient, info):
    cal = b.calibrate_scale_factor
    V = ValueError
    if K == 0:
        bad = [(V, dict(N_star=50., Omega_K0=0.01)), (V, dict(N_star=50., Omega_K0=-0.01)), (V, dict()), (V, dict(N_star=0)), (V, dict(N_star=-3.)), (Insufficient, dict(N_star=b.N_tot * 1.01)),
               (NotImplementedError, dict(calibration_method='Omega_K0', h=.7)), (NotImplementedError, dict(calibration_method='foo')),
               (V, dict(calibration_method='reheating', w_reh=-.5, DeltaN_reh=3.)), (V, dict(calibration_method='reheating', w_reh=0., DeltaN_reh=-3.)), (V, dict(calibration_method='reheating', w_reh=0.)),
               (V, dict(N_star=b.N_tot * .9, w_reh=1 / 3)), (V, dict(N_star=b.N_tot * .9, w_reh=0., rho_reh_GeV=1e9)), (V, dict(N_star=b.N_tot * .9, DeltaN_reh=3.))]
    else:
        o = -K * 0.01
        bad = [(V, dict(Omega_K0=o, h=.7, N_star=50.)), (V, dict(Omega_K0=o)), (V, dict(Omega_K0=o, h=0)), (V, dict(Omega_K0=o, h=-.7)), (V, dict(h=.7)), (V, dict(Omega_K0=0., h=.7)), (V, dict(Omega_K0=-o, h=.7)),
               (V, dict(calibration_method='reheating', Omega_K0=o, h=.7)), (V, dict(calibration_method='reheating')), (NotImplementedError, dict(calibration_method='N_star', h=.7)),
               (V, dict(calibration_method='reheating', h=.7, w_reh=-.5, DeltaN_reh=3.)), (V, dict(calibration_method='reheating', h=.7, w_reh=0., DeltaN_reh=-3.)), (V, dict(calibration_method='reheating', h=.7, w_reh=0.)),
               (Insufficient, dict(Omega_K0=o * 1e12, h=.7)), (PrimpyError, None)]
    for exc, kw in bad:
        if kw is None:
            mon.raises('refused', exc, lambda: b.set_ns(0.96), what='set_ns of a curved universe')
            continue

        def f():
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                cal(**kw)
        mon.raises('refused', exc, f, kw=kw, **info)


def set_ns(mon, b, own, P, rng, info):
    from primpy.exceptionhandling import PrimpyError
    lo, hi = 25., float(min(b.N_tot - 3, 75.))
    ns = []
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        for x in np.linspace(lo, hi, 9):
            b.calibrate_scale_factor(N_star=float(x))
            ns.append(float(b.n_s))
        d = np.diff(ns)
        if P.kind in FEATURES or not (np.all(d > 0) or np.all(d < 0)) or abs(ns[-1] - ns[0]) < 1e-4:
            return
        want = float(rng.uniform(min(ns), max(ns)))
        rho = [None, float(10 ** rng.uniform(3, 12))][int(rng.integers(2))]
        r = b.set_ns(want, N_star_min=lo, N_star_max=hi, rho_reh_GeV=rho)
        mon.close('set_ns', float(b.n_s), want, rtol=0, atol=1e-8, what='n_s', **info)
        Ns = float(b.N_star)
        mon.check('set_ns', lo <= Ns <= hi, N_star=Ns, **info)
        k = int(np.searchsorted(np.linspace(lo, hi, 9), Ns))
        mon.check('set_ns', min(ns[k - 1], ns[k]) - 1e-9 <= want <= max(ns[k - 1], ns[k]) + 1e-9, what='between neighbouring calibrations', **info)
        judge(mon, b, own, P, 0, 'set_ns', dict(), info)
        got = {q: float(getattr(b, q)) for q in ('N_star', 'A_s', 'r', 'a0_Mpc', 'DeltaN_minus1', 'N_reh', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV')}
        b.calibrate_scale_factor(N_star=Ns, rho_reh_GeV=rho)
        for q, v in got.items():
            mon.close('set_ns', v, float(getattr(b, q)), rtol=1e-9, what=q, rho=rho, **info)
        span = abs(ns[-1] - ns[0])
        mon.raises('set_ns', PrimpyError, lambda: b.set_ns(max(ns) + span, N_star_min=lo, N_star_max=hi), **info)
        mon.raises('set_ns', PrimpyError, lambda: b.set_ns(min(ns) - span, N_star_min=lo, N_star_max=hi), **info)
