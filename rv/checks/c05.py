"""C05: cosmic-time and e-fold runs of the same physical state are the same universe."""
import math
import numpy as np
from .. import bg, flow
from ..pots import Pot, FEATURES

PROPERTY = 'C05'
RULE = ('random potential, curvature and physical initial state (inflation start, slow roll, kinetic-dominated, rolling uphill); the same '
        'state is integrated by both real implementations, sampled at the same e-folds; backgrounds, calibrated quantities, approximate and '
        'numerical spectra are compared pairwise. Non-trivial = distinct (family, curvature, kind of state, calibration) pair with an end of inflation.')
REQUIRED = {'background': 10000, 'inflation': 200, 'calibrated': 500, 'approximate spectra': 400, 'spectra': 100}
TIMEOUT = 100


def cases(rng, tier):
    n = 64 if tier == 'quick' else 1200
    out = []
    for i in range(n):
        K = int(rng.integers(-1, 2))
        s = bg.random_scenario(rng, kinds=bg.SMOOTH + list(FEATURES), K=K, N=(60, 74), clock='t', ic='IS' if K or rng.random() < .5 else 'SR')
        s.update(kind='pair', state=['ic', 'ic', 'uphill', 'kinetic'][int(rng.integers(4))], seed=int(rng.integers(2**31)),
                 pps=bool(i % 3 == 0), eta_i=float(np.round(rng.normal(), 3)), tmode=['same', 'free'][int(rng.random() < .3)],
                 method=['DOP853', 'RK45'][int(rng.random() < .3)])
        s['cost'] = 3 if s['pps'] else 1
        out.append(s)
    return out


def run_case(case, mon):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.solver import solve
    from primpy.exceptionhandling import InsufficientInflationError
    rng = np.random.default_rng(case['seed'])
    P, K = Pot.from_spec(case['pot']), case['K']
    d = bg.initial_state(case)
    phi, u, N = d['phi'], d['dphidt'], d['N']
    if case['state'] == 'uphill':
        u = abs(u) * rng.uniform(0.01, 1)
    elif case['state'] == 'kinetic':
        u = u * rng.uniform(1.1, 6)
    t, eta = case['t_i'], case['eta_i']
    if (u * u / 2 + P.VdV(phi)[0]) / 3 - K * math.exp(-2 * N) <= 0:
        return
    ref = flow.Ref(P, K, phi, u, N, t=t, eta=eta)
    near = flow.Ref(P, K, phi * (1 + 1e-8), u, N, t=t, eta=eta)
    if not (ref.ok and near.ok and ref.N_end and near.N_end):
        return
    amp = 1 + abs(near.N_end - ref.N_end) / 1e-8
    if amp > 3000 or abs(K) and math.exp(-2 * N) / d['H']**2 > 0.5:
        mon.obs('ill_conditioned')
        return
    H = math.sqrt((u * u / 2 + P.VdV(phi)[0]) / 3 - K * math.exp(-2 * N))
    mon.tag(family=P.kind, K=K)
    info = dict(pot=repr(P), K=K, state=case['state'])
    ngrid = 6000 if case['pps'] else 2500
    Ng = np.linspace(ref.N0, ref.N_end - 2e-3, ngrid)
    Ng[0] = N
    tg = ref.at(Ng)['t']
    runs = {}
    for clock in 'tN':
        if clock == 't':
            eq = InflationEquationsT(K=K, potential=P.make(), track_eta=True)
        else:
            eq = InflationEquationsN(K=K, potential=P.make(), track_eta=True, track_time=True)
        ic = bg.state_ic(eq, phi, u, N, H, t=t, eta=eta)
        # the initial step guess of the integrator divides by zero-size tolerances in cosmic time otherwise
        kw = dict(method=case['method'], rtol=1e-12, atol=1e-17 if clock == 't' else 1e-13)
        if case['tmode'] == 'same':
            kw['t_eval'] = tg if clock == 't' else Ng
        runs[clock] = solve(ic, events=bg.std_events(eq), **kw)
    bt, bn = runs['t'], runs['N']
    same = case['tmode'] == 'same'
    tol = 1e-9 * (30 + amp)
    mon.obs('pairs')
    if same:
        k = min(bt.x.size, bn.x.size)
        mon.check('same samples', bt.x.size == bn.x.size == ngrid, t=bt.x.size, N=bn.x.size)
        s = slice(0, k)
        mon.close('background', bt._N[s], bn._N[s], rtol=0, atol=tol, what='N', **info)
        mon.close('background', bt.phi[s], bn.phi[s], rtol=tol, atol=tol, what='phi', **info)
        mon.close('background', bt.dphidt[s], (bn.dphidN * bn.H)[s], rtol=tol, atol=tol * 1e-1 * abs(bt.dphidt[k - 1]), what='dphidt', **info)
        mon.close('background', bt.H[s], bn.H[s], rtol=tol, what='H', **info)
        mon.close('background', bt.w[s], bn.w[s], rtol=tol, atol=tol, what='w', **info)
        mon.close('background', bt.t[s], bn.t[s], rtol=tol, atol=tol / H, what='t', **info)
        mon.close('background', bt.Omega_K[s], bn.Omega_K[s], rtol=10 * tol, what='Omega_K', **info)
        mon.close('background', bt.eta[s], bn.eta[s], rtol=tol, atol=10 * tol * (abs(eta) + np.max(np.abs(bn.eta - eta))), what='eta', **info)
    for q in ('_N_end', '_N_beg', 'N_tot', 'phi_end', 'H_end', 'V_end', '_logaH_beg', '_logaH_end', 'H_beg'):
        mon.close('inflation', getattr(bt, q), getattr(bn, q), rtol=10 * tol, atol=10 * tol, what=q, **info)
    # calibration
    if not np.isfinite(bn.N_tot) or bn.N_tot < 56:
        return
    h = float(rng.uniform(0.6, 0.75))
    which = int(rng.integers(3))
    if K == 0:
        kw = [dict(N_star=float(rng.uniform(48, min(56, bn.N_tot - 3)))), dict(calibration_method='reheating', h=h),
              dict(N_star=float(rng.uniform(50, min(56, bn.N_tot - 3))), rho_reh_GeV=1e9)][which]
    else:
        # a curvature today that puts the pivot 50 to 56 e-folds before the end
        Ns = bn._N_end - rng.uniform(48, min(58, bn.N_tot - 2))
        laH = float(ref.at(Ns)['H'][0])
        a0M = math.exp(Ns) * laH / 0.05
        kw = [dict(Omega_K0=-K * (299792.458 / (h * 100 * a0M))**2, h=h), dict(calibration_method='reheating', h=h),
              dict(Omega_K0=-K * (299792.458 / (h * 100 * a0M))**2, h=h, rho_reh_GeV=1e10)][which]
    method = ['CGS', 'LLMS', 'STE', 'ARBDS'][int(rng.integers(4))]
    import warnings
    errs = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for b in (bt, bn):
            try:
                b.calibrate_scale_factor(method=method, **kw)
                errs.append(None)
            except Exception as e:        # refusing (or failing) is fine here as long as both agree
                errs.append(type(e).__name__)
    mon.check('same outcome', errs[0] == errs[1], errs=errs, kw=kw)
    if errs[0] or errs[1]:
        mon.obs('calibration_refused')
        return
    mon.seen(P.kind, K, case['state'], which, method, case['tmode'])
    e1s = float(P.e1(float(ref.at(bn._N_cross)['phi'][0])))
    # quantities interpolated between samples depend on the grid unless it is shared
    gtol = 20 * tol if same else 2e-3
    for q in ('N_star', 'N_dagg', '_N_cross', '_logaH_star', 'delta_N_calib', 'N_beg', 'N_end', 'N_reh', 'N0', 'DeltaN_reh', 'w_reh',
              'DeltaN_minus1', 'a0', 'a0_Mpc', 'Omega_K0', 'rho_reh_GeV', 'H_star', 'cHH_end_Mpc'):
        x, y = float(getattr(bt, q)), float(getattr(bn, q))
        if q in ('a0', 'a0_Mpc', 'rho_reh_GeV', 'H_star', 'cHH_end_Mpc'):
            mon.close('calibrated', x, y, rtol=gtol, what=q, **info)
        elif q == 'w_reh':
            mon.close('calibrated', x, y, rtol=100 * gtol, atol=100 * gtol, what=q, **info)
        else:
            mon.close('calibrated', x, y, rtol=gtol, atol=gtol, what=q, **info)
    if same:
        mon.close('calibrated', bt.k_iMpc[:50], bn.k_iMpc[:50], rtol=gtol, what='k_iMpc', **info)
        mon.close('calibrated', bt.logk, bn.logk, rtol=gtol, atol=gtol, what='logk', **info)
        mon.close('calibrated', bt.cHH_Mpc, bn.cHH_Mpc, rtol=gtol, what='cHH', **info)
    if not same:                 # interpolation on two unrelated adaptive grids is only as good as those
        return
    stol = 1e-6 + 50 * gtol
    for q, s in (('A_s', 1), ('n_s', 1), ('r', 1), ('A_t', 1), ('n_t', 1), ('n_run', 10), ('n_runrun', 100)):
        x, y = float(getattr(bt, q)), float(getattr(bn, q))
        mon.close('approximate spectra', x, y, rtol=stol, atol=stol * s * (1 if q not in ('A_s', 'r', 'A_t') else 0), what=q, method=method, **info)
    kk = 0.05 * 10 ** rng.uniform(-1.5, 1.5, 6)
    slow = e1s < 0.05 and abs(bn.n_run) < 0.02 and abs(bn.n_s - 1) < 0.3
    kk = kk[(np.log(kk) > bn.logk.min() + 0.5) & (np.log(kk) < bn.logk.max() - 8)]
    for m, o in (('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('LLMS', 3), ('STE', 3), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)):
        if m in ('ARBDS', 'LLMS') and not slow:
            continue
        rt = 1e-6 + 50 * gtol
        mon.close('approximate spectra', bt.P_s_approx(kk, method=m, order=o), bn.P_s_approx(kk, method=m, order=o), rtol=rt, what=m + str(o), **info)
        mon.close('approximate spectra', bt.P_t_approx(kk, method=m, order=o), bn.P_t_approx(kk, method=m, order=o), rtol=rt, what=m + str(o), **info)
    if case['pps'] and case['state'] != 'uphill':      # R is singular where the field turns around
        from primpy.oscode_solver import solve_oscode
        k = np.sort(np.exp(bn._logaH[0]) * 10 ** rng.uniform(-0.5, 3.5, 4)) if rng.random() < .5 else np.exp(bn._logaH_star) * 10 ** rng.uniform(-1.5, 1, 4)
        if K > 0:
            k = np.unique(np.maximum(np.round(k), 3.0))
        vac = ('RST', 'HD', 'k')
        mon.obs('modes', k.size)
        with np.errstate(all='ignore'):
            pt, pn = (solve_oscode(b, k, vacuum=vac, fac_beg=100, even_grid=(b is bn)) for b in (bt, bn))
        mon.close('spectra', pt.k_iMpc, pn.k_iMpc, rtol=10 * gtol, what='k_iMpc', **info)
        for v in vac:
            for x in 'st':
                a, c = getattr(pt, 'P_%s_%s' % (x, v)), getattr(pn, 'P_%s_%s' % (x, v))
                mon.close('spectra', a, c, rtol=1e-2, what=v + x, k=k / math.exp(bn._logaH[0]), **info)
    mon.sample(pot=repr(P), K=K, state=case['state'], N_end=[bt._N_end, bn._N_end], n_s=[bt.n_s, bn.n_s], A_s=[bt.A_s, bn.A_s])
