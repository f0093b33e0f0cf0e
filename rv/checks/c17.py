"""C17: numerically integrated spectra against own integration of the modes, and invariances of the request."""
import math
import warnings
import numpy as np
from .. import bg, modes
from ..pots import Pot, FEATURES
from .c16 import Exact

PROPERTY = 'C17'
RULE = ('random background (potential, curvature, clock, inflating / kinetic / deeply kinetic start) sampled densely; modes from far outside to deep inside of the first horizon with every vacuum. Each returned spectrum is '
        'compared with own evolution of the same initial state in Newtonian gauge; batches are permuted, split and extended. Non-trivial = distinct (family, curvature, clock, start, vacuum, decade of k).')
REQUIRED = {'spectrum': 300, 'batch': 300, 'units': 30, 'dense': 50}
TIMEOUT = 150
TOL = 5e-3


def cases(rng, tier):
    n = 72 if tier == 'quick' else 1600
    out = []
    for i in range(n):
        K = [0, 1, -1][i % 3]
        kd = i % 4 == 3
        kinds = ['Quadratic', 'Cubic', 'Quartic', 'Monomial', 'Starobinsky', 'Tmodel', 'Linear'] if kd else bg.SMOOTH + list(FEATURES)
        s = bg.random_scenario(rng, kinds=kinds, K=K, N=(36, 66), clock='tN'[i // 3 % 2], method='DOP853', ic='IS' if K else None)
        s.update(kind='kinetic' if kd else 'modes', seed=int(rng.integers(2**31)))
        if s['ic'] == 'IS' and not kd and rng.random() < .4:
            s['boost'] = float(10 ** rng.uniform(0.05, 1.0))
        if kd:
            s['efolds'] = float(rng.uniform(1, 5.8))
            if s['efolds'] > 2.5:
                s['clock'] = 't'
        out.append(s)
    return out


def start(case):
    """physical state at the beginning."""
    P, K = Pot.from_spec(case['pot']), case['K']
    d = bg.initial_state(case)
    if d is None:
        return None
    phi, u, N = d['phi'], d['dphidt'], d['N']
    if case['kind'] == 'kinetic':
        n = case['efolds']
        N = N - n                                    # keep the curvature at the start of inflation what it was
        phi = phi + (1 if u < 0 else -1) * math.sqrt(6) * n
        u = math.copysign(math.sqrt(P.VdV(d['phi'])[0]) * math.exp(3 * n), u)
    V = P.VdV(phi)[0]
    H2 = (u * u / 2 + V) / 3 - K * math.exp(-2 * N)
    if H2 <= 0:
        return None
    H = math.sqrt(H2)
    return P, K, phi, u, N, H, (case['t_i'] if case['kind'] != 'kinetic' else 1 / (3 * H))


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    st = start(case)
    if st is None:
        return
    P, K, phi, u, N, H, t = st
    clock = case['clock']
    B = modes.Background(P, K, phi, u, N, t)
    if not B.ok or B.N_end is None or B.N_end - N < 22 or B.N_up is not None and B.N_end - B.N_up < 16:
        mon.obs('too short')
        return
    h = float(rng.choice([.005, .01]))
    Ng = N + h * np.arange(int((B.N_end - 5e-3 - N) / h) + 1)
    if case['kind'] == 'kinetic':                        # linear interpolation by the solver needs finer samples there
        Nu = min(B.N_up + 2.0, Ng[-1] - 1)
        Ng = np.concatenate([np.arange(N, Nu, 1e-3), Ng[Ng > Nu]])
    n = Ng.size
    g = Ng
    p_, u_, t_, H_ = B.at(Ng)
    if np.any(np.diff(np.sign(u_)) != 0):
        mon.obs('turning')
        return
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        eq = bg.make_equations(case)
        if clock == 't':
            g = t_.copy()
            g[0] = t
        ic = bg.state_ic(eq, phi, u, N, H, t=t)
        b = bg.run(case, eq=eq, ic=ic, t_eval=g, rtol=1e-12, atol=1e-16 if clock == 't' else 1e-13)
        if not mon.check('samples', b.x.size == n, got=b.x.size, want=n) or not np.isfinite(b._N_end):
            return
        if not bg.calibrate_somehow(b, K, rng):
            mon.obs('not calibrated')
            return
        dev = float(np.max(np.abs(np.asarray(b.phi) - p_)))
        mon.tag(family=P.kind, K=K, clock=clock, start=case['kind'])
        if dev > 1e-5:
            mon.obs('sensitive')
            return
        spectra(case, mon, rng, P, K, clock, b, Ng, p_, u_, t_, H_)


def spectra(case, mon, rng, P, K, clock, b, N, phi, u, t, H):
    from primpy.oscode_solver import solve_oscode
    laH = N + np.log(H)
    i_inf = int(np.argmax(np.array([P.VdV(float(x))[0] for x in phi]) - u**2 > 0))
    lmin = laH[i_inf:].min()
    ks = []
    for _ in range(4):
        lk = float(rng.uniform(lmin - 2, lmin + 8))
        if rng.random() < .4:
            lk = float(rng.uniform(lmin - 1, max(lmin + 1, laH[0] + 1)))
        lk = min(lk, lmin + 8, laH.max() - math.log(1000) - 1, laH.max() - 6)
        k = math.exp(lk)
        if K > 0:
            k = max(3., round(k)) if rng.random() < .7 else max(3., k)
        elif K < 0:
            k = max(k, .05)
        if math.log(k) > laH.max() - 5.5 or k in ks:
            continue
        ks.append(k)
    if not ks:
        return
    ks = np.array(ks)
    vac = ('RST', 'HD', 'k')
    fac_beg = float(rng.choice([0, 100, 100, 300])) if case['kind'] == 'modes' else 0.
    opt = dict(fac_beg=fac_beg, even_grid=clock == 'N' and case['kind'] == 'modes')
    if rng.random() < .3:
        opt['fac_end'] = float(rng.choice([300, 1000]))
    lag = math.log(opt.get('fac_end', 100))
    pps = solve_oscode(b, ks, vacuum=vac, **opt)
    mon.check('order', np.array_equal(pps.k, ks), k=pps.k)
    scale = 0.05 / math.exp(float(b._logaH_star))
    mon.close('units', pps.k_iMpc, ks * scale, rtol=1e-12, what='k_iMpc')
    if K:
        mon.close('units', pps.k_iMpc, ks / b.a0_Mpc, rtol=1e-12, what='curvature units')
    for i, k in enumerate(ks):
        direct(case, mon, rng, P, K, clock, b, N, phi, u, H, laH, k, fac_beg, lag, {v: (pps_at(pps, 's', v, i), pps_at(pps, 't', v, i)) for v in vac})
    batches(mon, rng, P, K, clock, b, ks, vac, opt, pps, solve_oscode)
    dense(mon, rng, P, K, clock, b, N, phi, u, H, laH, ks, opt, solve_oscode)
    mon.sample(k=ks, fac_beg=fac_beg, P_s=pps.P_s_RST, P_t=pps.P_t_RST)


def pps_at(pps, x, v, i):
    return float(getattr(pps, 'P_%s_%s' % (x, v))[i])


def vacuum(ex, a, H, k, v, tensor):
    """(y, dy/dN) of the vacuum, or None where it is undefined."""
    z, z1, z2 = (float(q[0]) for q in ex.z(tensor))
    w2 = k * k - z2 if v == 'HD' else k * k
    if v == 'HD' and w2 <= 1e-6 * (k * k + abs(z2)):
        return None
    w = math.sqrt(w2)
    y = 1 / math.sqrt(2 * w) / z
    return y, (-1j * w - (z1 if v != 'RST' else 0)) * y / (a * H)


def begin(laH, k, fac_beg):
    if not fac_beg:
        return 0
    i = np.nonzero(math.log(k) - laH > math.log(fac_beg))[0]
    return int(i[-1]) if i.size else 0


def direct(case, mon, rng, P, K, clock, b, N, phi, u, H, laH, k, fac_beg, lag, got):
    i0 = begin(laH, k, fac_beg)
    a, H0 = math.exp(N[i0]), H[i0]
    x0 = k / (a * H0)
    if x0 > 4000:
        mon.obs('deep')
        return
    # frozen: a thousand horizons outside
    late = np.nonzero(laH - math.log(k) > math.log(1000))[0]
    late = late[late > max(i0, np.argmin(laH))]
    last = int(late[0]) if late.size else N.size - 1
    last = max(last, min(int(np.searchsorted(N, N[i0] + 12)), N.size - 1))
    out = [N[last]]
    mid = int(np.searchsorted(N, N[last] - (math.log(1000) - lag) - .3))    # about where the library stops: how much still happens afterwards
    comb = modes.curved_modes(P, K, phi[i0], u[i0], N[i0], k, [N[max(mid, i0 + 1)], N[last]])
    if comb is None:
        mon.obs('own integration failed')
        return
    ex = Exact(P, K, phi[[i0]], u[[i0]], N[[i0]])
    tol = TOL * (3 if P.kind in FEATURES else 1 + 2 * case.get('efolds', 0))
    for v, (ps, pt) in got.items():
        for tensor, p in ((False, ps), (True, pt)):
            ini = vacuum(ex, a, H0, k, v, tensor)
            if ini is None:
                mon.obs('no vacuum')
                continue
            y = comb(tensor, *ini)
            norm = k**3 / (2 * math.pi**2) * (2 if tensor else 1)
            want = abs(y[-1])**2 * norm
            # modes that are excited far outside of the horizon, or interfere destructively, multiply all errors
            amp = abs(comb(tensor, 1.0, 0.0)[-1] * ini[0]) + abs(comb(tensor, 0.0, 1.0)[-1] * ini[1])
            kappa = (amp / abs(y[-1]))
            drift = abs(abs(y[0])**2 * norm / want - 1)
            if kappa > 30:
                mon.obs('cancelling')
                continue
            mon.seen(P.kind, K, clock, case['kind'], v, int(math.floor(math.log10(k * math.exp(-laH.min())))))
            mon.close('spectrum', p, want, rtol=tol * kappa + drift, v=v, tensor=tensor, k=k, x0=x0, fac_beg=fac_beg, drift=drift, kappa=kappa, pot=repr(P), k_aHmin=k * math.exp(-laH.min()),
                      start_over_100k=math.exp(laH[i0]) / (100 * k))
            if mon.case.get('trace'):
                print('E %.2e' % (p / want - 1), v, 'st'[tensor], 'x0=%.3g' % x0, 'kap=%.2g drift=%.1e' % (kappa, drift), clock, case['kind'], P.kind, K, 'kd=%.2g' % case.get('efolds', 0))


def batches(mon, rng, P, K, clock, b, ks, vac, opt, pps, solve_oscode):
    perm = rng.permutation(ks.size)
    q = solve_oscode(b, ks[perm], vacuum=vac[::-1], **opt)
    one = solve_oscode(b, float(ks[0]), vacuum=('HD',), **opt)
    sub = solve_oscode(b, ks[-1:].copy(), vacuum=('k', 'RST'), **opt)
    dflt = solve_oscode(b, float(ks[-1]), **opt)
    for x in 'st':
        for v in vac:
            p = getattr(pps, 'P_%s_%s' % (x, v))
            mon.close('batch', getattr(q, 'P_%s_%s' % (x, v)), p[perm], rtol=1e-12, what='permutation', v=v)
        mon.close('batch', getattr(getattr(one, 'scalar' if x == 's' else 'tensor'), 'P_%s_HD' % x), pps_at(pps, x, 'HD', 0), rtol=1e-12, what='single')
        mon.close('batch', pps_at(sub, x, 'RST', 0), pps_at(pps, x, 'RST', -1), rtol=1e-12, what='subset')
        mon.close('batch', pps_at(sub, x, 'k', 0), pps_at(pps, x, 'k', -1), rtol=1e-12, what='subset')
        mon.close('batch', getattr(getattr(dflt, 'scalar' if x == 's' else 'tensor'), 'P_%s_RST' % x), pps_at(pps, x, 'RST', -1), rtol=1e-12, what='default vacuum')
    if K > 0 and rng.random() < .5:
        k = np.array([float(rng.uniform(.2, .99)), float(ks[0])])
        d = solve_oscode(b, k, vacuum=vac, **opt)
        for v in vac:
            mon.check('dropped', getattr(d, 'P_s_' + v)[0] == 1e-30, v=v, got=getattr(d, 'P_s_' + v))
            mon.close('batch', getattr(d, 'P_s_' + v)[1], pps_at(pps, 's', v, 0), rtol=1e-12, what='kept')
        with np.errstate(all='ignore'):
            d = solve_oscode(b, float(k[0]), vacuum=('RST',), drop_closed_large_scales=False, **opt)
        mon.check('dropped', not d.scalar.P_s_RST == 1e-30, got=d.scalar.P_s_RST)
    # the two solutions that are combined are arbitrary
    a, c = (float(v) for v in rng.choice([-1, 1], 2) * 10 ** rng.uniform(-1, 1, 2))
    y0 = (a, 0., 0., c) if rng.random() < .5 else (0., a, c, 0.)
    if rng.random() < .5:
        r = solve_oscode(b, ks[:1], vacuum=vac, y0=y0, **opt)
        for x in 'st':
            for v in vac:
                mon.close('combination', pps_at(r, x, v, 0), pps_at(pps, x, v, 0), rtol=3 * TOL, y0=y0, v=v, x=x)
                if mon.case.get('trace'):
                    print('Y %.1e' % (pps_at(r, x, v, 0) / pps_at(pps, x, v, 0) - 1), y0)


def dense(mon, rng, P, K, clock, b, N, phi, u, H, laH, ks, opt, solve_oscode):
    k = float(ks[int(rng.integers(ks.size))])
    vac = ('RST', 'k')
    M = int(rng.integers(60, 300))
    p = solve_oscode(b, k, vacuum=vac, num_eval=M, **opt)
    i0 = begin(laH, k, opt['fac_beg'])
    if k / (math.exp(N[i0]) * H[i0]) > 500:
        return
    ref = solve_oscode(b, k, vacuum=vac, **opt)
    dt = 2 * TOL * (1 + 3 * mon.case.get('efolds', 0))
    for tag, mode in (('s', p.scalar), ('t', p.tensor)):
        x = np.asarray(mode.x_eval, dtype=float)
        if not mon.check('dense', x.shape == (M,) and np.all(np.diff(x) > 0), what='evaluation points', shape=x.shape):
            return
        mon.close('dense', x[0], b.x[i0], rtol=1e-9, what='begin')
        Nx = x if clock == 'N' else np.interp(x, b.x, N)
        Nx = np.clip(Nx, N[i0], None)
        last = int(np.searchsorted(N, Nx[-1]))
        mon.check('dense', laH[min(last + 1, N.size - 1)] - math.log(k) > math.log(opt.get('fac_end', 100)) - .05 or Nx[-1] - Nx[0] > 9.9, what='end')
        comb = modes.curved_modes(P, K, phi[i0], u[i0], N[i0], k, Nx)
        if comb is None:
            mon.obs('own integration failed')
            return
        a, H0 = math.exp(N[i0]), H[i0]
        ex = Exact(P, K, phi[[i0]], u[[i0]], N[[i0]])
        for v in vac:
            got = np.asarray(getattr(mode, 'P_%s_%s_eval' % (tag, v)))
            y = comb(tag == 't', *vacuum(ex, a, H0, k, v, tag == 't'))
            want = np.abs(y)**2 * k**3 / (2 * math.pi**2) * (2 if tag == 't' else 1)
            mon.close('dense', got, want, rtol=dt, atol=dt * np.max(want[-3:]), what='P_eval', v=v, k=k, tag=tag)
            if mon.case.get('trace'):
                e = np.abs(got / want - 1)
                print('D %s max %.1e at %d/%d  end %.1e' % (tag, np.nanmax(e), np.nanargmax(e), M, e[-1]), 'x0=%.3g' % (k / a / H0), clock)
            mon.close('dense', getattr(mode, 'P_%s_%s' % (tag, v)), getattr(ref.scalar if tag == 's' else ref.tensor, 'P_%s_%s' % (tag, v)), rtol=dt / 10, what='same spectrum')
