"""C12: reheating bookkeeping of calibrated runs."""
import math
import warnings
import numpy as np
from .. import bg
from ..pots import Pot, FEATURES
from .c11 import background

PROPERTY = 'C12'
RULE = ('random background; a random reheating history (w, duration, degrees of freedom) or its instantaneous limit is requested through every sufficient subset of parameters that describes it; each '
        'calibrated run is judged by own energy scaling and entropy conservation, and all of them against one another. Non-trivial = distinct (curvature, subset, stiff or soft, family).')
REQUIRED = {'energy': 300, 'entropy': 300, 'radiation': 300, 'same universe': 1000, 'instant': 50, 'announced': 100, 'refused': 300, 'no details': 30}
TIMEOUT = 100


def cases(rng, tier):
    n = 72 if tier == 'quick' else 1500
    out = []
    for i in range(n):
        s = bg.random_scenario(rng, kinds=bg.SMOOTH + list(FEATURES), K=[0, 1, -1][i % 3], N=(58, 80), clock='tN'[i // 3 % 2])
        s.update(kind='reheating', seed=int(rng.integers(2**31)), dense=bool(rng.random() < .4))
        out.append(s)
    return out


KEYS = ['N_star', 'a0', 'a0_Mpc', 'delta_N_calib', 'N0', 'N_end', '_N_cross', '_logaH_star', 'Omega_K0', 'rho_reh_mp4', 'rho_reh_GeV', 'w_reh', 'DeltaN_reh', 'DeltaN_minus1', '_N_reh', 'N_reh']


def snap(c):
    d = {k: float(c.get(k, np.nan)) for k in KEYS}
    d['k'] = np.array(c.k_iMpc)
    d['A_s'] = float(c.get('A_s', np.nan))
    return d


def calib(b, kw):
    """calibrate, returning (state, warnings)."""
    from primpy.exceptionhandling import PrimpyWarning
    with warnings.catch_warnings(record=True) as w, np.errstate(all='ignore'):
        warnings.simplefilter('always')
        try:
            b.calibrate_scale_factor(**kw)
        except TypeError as e:                # no slow-roll expansion at the pivot (judged in C11): the calibration itself is done
            if 't(k)<=x' not in str(e):
                raise
            b.A_s = np.nan
    msg = [str(x.message) for x in w if issubclass(x.category, PrimpyWarning)]
    return snap(b), msg


def run_case(case, mon):
    from primpy.exceptionhandling import InsufficientInflationError
    from primpy import bigbang as bb
    rng = np.random.default_rng(case['seed'])
    P, K = Pot.from_spec(case['pot']), case['K']
    mon.tag(family=P.kind, K=K, clock=case['clock'])
    b, ref = background(case, mon, rng)
    if b is None:
        return
    phi_end = float(b.phi_end)
    V = P.VdV(phi_end)[0]
    mon.close('energy', b.V_end, V, rtol=1e-10, what='V_end is the potential at the recorded end', pot=repr(P))
    info = dict(pot=repr(P), K=K, clock=case['clock'])
    X = dict(calibration_method='reheating')
    for trial in range(3):
        h = float(rng.uniform(0.4, 1.0))
        g = [100., float(10 ** rng.uniform(0.55, 3))][int(rng.integers(2))]
        w = float(rng.uniform(-0.33, 1.2))
        if abs(w - 1 / 3) < .03:
            w += .1
        dN = float(10 ** rng.uniform(-2, 1.6))
        base = dict(h=h, g_th=g, **X)
        try:
            U, msg = calib(b, dict(base, w_reh=w, DeltaN_reh=dN))
        except InsufficientInflationError:
            mon.obs('pivot outside')
            continue
        inf = dict(info, h=h, g_th=g, w=w, dN=dN)
        one(mon, U, V, b, K, g, inf, 'w+DeltaN', msg, w, dN)
        mon.close('energy', [U['w_reh'], U['DeltaN_reh']], [w, dN], rtol=1e-14, what='as requested', **inf)
        ways = [('w+rho', dict(base, w_reh=w, rho_reh_GeV=U['rho_reh_GeV']))]
        if K == 0:
            ways += [('minus1+rho', dict(base, DeltaN_minus1=U['DeltaN_minus1'], rho_reh_GeV=U['rho_reh_GeV'])),
                     ('minus1', dict(base, DeltaN_minus1=U['DeltaN_minus1'])),
                     ('N_star+w', dict(N_star=U['N_star'], g_th=g, w_reh=w)),
                     ('N_star+rho', dict(N_star=U['N_star'], g_th=g, rho_reh_GeV=U['rho_reh_GeV'])),
                     ('N_star', dict(N_star=U['N_star'], g_th=g))]
        else:
            ways += [('Omega_K0+rho', dict(Omega_K0=U['Omega_K0'], h=h, g_th=g, rho_reh_GeV=U['rho_reh_GeV'])), ('Omega_K0', dict(Omega_K0=U['Omega_K0'], h=h, g_th=g))]
        for i in rng.permutation(len(ways)):
            name, kw = ways[i]
            try:
                W, msg = calib(b, kw)
            except ValueError as e:
                # a rounding-level negative duration is refused
                mon.check('same universe', False, what='an equivalent description was refused', way=name, error=str(e)[:200], **inf)
                continue
            known = name not in ('minus1', 'N_star', 'Omega_K0')
            for q in KEYS:
                if not known and q in ('rho_reh_mp4', 'rho_reh_GeV', 'w_reh', 'DeltaN_reh', '_N_reh', 'N_reh'):
                    mon.check('no details', math.isnan(W[q]), what='details of reheating were not given', q=q, got=W[q], way=name, **inf)
                    continue
                if name == 'Omega_K0' and q == 'DeltaN_minus1':
                    mon.check('no details', math.isnan(W[q]) or abs(W[q] - U[q]) < 1e-6, q=q, got=W[q], way=name, **inf)
                    continue
                # curvature fixes today's scale factor only to the accuracy of the conversions; short durations amplify w
                amp = 1 + 50 / dN
                mon.close('same universe', W[q], U[q], rtol=1e-10 * amp, atol=1e-10 * amp, what=q, way=name, **inf)
            mon.close('same universe', W['k'], U['k'], rtol=1e-9, what='k_iMpc', way=name, **inf)
            mon.close('same universe', W['A_s'], U['A_s'], rtol=1e-7, what='A_s', way=name, **inf)
            if known:
                one(mon, W, V, b, K, g, inf, name, msg, w, dN)
            else:
                mon.check('announced', not msg, what='warning without cause', msg=msg, way=name, **inf)
            mon.seen(K, name, w > 1 / 3, P.kind)
        if K == 0:
            # H before and after: slope of the comoving horizon
            lc = [-(U['N_end'] + 0.5 * math.log(V / 2)), -(U['N_reh'] + 0.5 * math.log(U['rho_reh_mp4'] / 3))]
            got = bb.get_w_delta_reh(U['N_end'], U['N_reh'], lc[0], lc[1])
            mon.close('same universe', got, [w, dN], rtol=1e-7, atol=1e-8 / dN, what='slope of the comoving Hubble horizon', **inf)
    # instantaneous reheating
    h, g = float(rng.uniform(.4, 1)), float(10 ** rng.uniform(.55, 3))
    base = dict(h=h, g_th=g, **X)
    inf = dict(info, h=h, g_th=g)
    try:
        I, msg = calib(b, base)
    except InsufficientInflationError:
        return
    mon.check('announced', not msg, what='instant', msg=msg, **inf)
    mon.close('instant', [I['DeltaN_reh'], I['w_reh'], I['DeltaN_minus1']], [0, 1 / 3, 0], rtol=1e-15, atol=1e-15, **inf)
    mon.close('instant', I['rho_reh_mp4'], 1.5 * V, rtol=1e-12, what='energy density', **inf)
    mon.close('instant', I['N_reh'], I['N_end'], rtol=1e-14, atol=1e-13, **inf)
    entropy(mon, I, g, dict(inf, way='instant'))
    alts = [('w=1/3', dict(base, w_reh=1 / 3), 0), ('DeltaN=0', dict(base, DeltaN_reh=0), 0), ('w=1/3, DeltaN=0', dict(base, w_reh=1 / 3, DeltaN_reh=0.), 0), ('DeltaN_minus1=0', dict(base, DeltaN_minus1=0), 0),
            ('short', dict(base, w_reh=float(rng.uniform(-.3, 1)), DeltaN_reh=1e-7), 1e-7), ('nearly radiation', dict(base, w_reh=1 / 3 + 1e-9, DeltaN_reh=5.), 5.)]
    for name, kw, dN in alts:
        W, msg = calib(b, kw)
        mon.check('announced', not msg, msg=msg, way=name, **inf)
        for q in ('N_star', 'N0', 'N_end', 'DeltaN_minus1', '_N_cross'):
            mon.close('instant', W[q], I[q], rtol=1e-8, atol=2e-7, what=q, way=name, **inf)
        mon.close('instant', W['k'], I['k'], rtol=2e-7, what='k_iMpc', way=name, **inf)
        if name == 'nearly radiation':
            mon.close('instant', W['rho_reh_mp4'], 1.5 * V * math.exp(-20), rtol=1e-6, what='energy density', way=name, **inf)
            entropy(mon, W, g, dict(inf, way=name))
        else:
            mon.close('instant', [W['rho_reh_GeV'], W['DeltaN_reh']], [I['rho_reh_GeV'], 0], rtol=1e-6, atol=2e-7, what='rho', way=name, **inf)
    # announced: energy density above the one at the end of inflation; reheating lasting beyond today
    w = float(rng.uniform(-.3, 1))
    try:
        W, msg = calib(b, dict(base, w_reh=w, rho_reh_GeV=I['rho_reh_GeV'] * float(rng.uniform(1.05, 3))))
        mon.check('announced', W['DeltaN_reh'] < 0 and any('negative' in m for m in msg), what='energy density at the end of reheating above that at the end of inflation', msg=msg, **inf)
    except InsufficientInflationError:
        mon.obs('pivot outside')
    T0 = bg.T_CMB / bg.T_RED
    # reheating ends today when N0 = N_reh
    rho_today = math.exp(4 * (math.log(bg.G_S0) / 3 - math.log(g) / 12) - math.log(30 / math.pi**2)) * T0**4
    f = float(10 ** rng.uniform(-2, 2))
    try:
        W, msg = calib(b, dict(base, w_reh=.3333, rho_reh_GeV=f * rho_today ** .25 * bg.M_GEV))
        mon.check('announced', bool(msg) == (f < 1) and (not msg or 'today' in msg[0]), what='reheating ends after today', msg=msg, f=f, **inf)
        mon.close('entropy', W['N0'] - W['N_reh'], math.log(f), rtol=0, atol=1e-7, what='late reheating', **inf)
    except InsufficientInflationError:
        mon.obs('pivot outside')
    # refused
    o = dict(h=h, g_th=g, **X)
    rho = I['rho_reh_GeV'] / 100
    bad = [dict(o, w_reh=1 / 3, rho_reh_GeV=rho), dict(o, w_reh=1 / 3, DeltaN_reh=2.), dict(o, w_reh=.1, DeltaN_reh=0), dict(o, DeltaN_reh=0, rho_reh_GeV=rho), dict(o, w_reh=.1), dict(o, DeltaN_reh=2.), dict(o, rho_reh_GeV=rho),
           dict(o, w_reh=.1, DeltaN_reh=2., rho_reh_GeV=rho), dict(o, w_reh=-.4, DeltaN_reh=2.), dict(o, w_reh=-.4, rho_reh_GeV=rho), dict(o, w_reh=.1, DeltaN_reh=-.1), dict(o, DeltaN_reh=2., rho_reh_GeV=rho),
           dict(o, DeltaN_minus1=0, w_reh=.1), dict(o, DeltaN_minus1=0, rho_reh_GeV=rho), dict(o, DeltaN_minus1=1., w_reh=1 / 3)]
    if K == 0:
        d = I['N_star']
        bad += [dict(o, DeltaN_minus1=1., w_reh=.1), dict(o, DeltaN_minus1=1., DeltaN_reh=2.), dict(N_star=d, w_reh=1 / 3), dict(N_star=d - .5, w_reh=.1, rho_reh_GeV=rho), dict(N_star=d - .5, DeltaN_reh=1.),
                dict(N_star=d - .5, w_reh=.8, g_th=g), dict(N_star=d + .5, w_reh=0., g_th=g)]
        # a shift of the pivot by half an e-fold asks for reheating of the other kind, which would need negative duration
        if not d + .5 < b.N_tot:
            bad.pop()
    for kw in bad:
        mon.raises('refused', (ValueError, NotImplementedError), lambda: calib(b, kw), kw=kw, **info)
    mon.sample(**info, N_star=I['N_star'], N0=I['N0'], rho=I['rho_reh_GeV'])


def entropy(mon, U, g, inf):
    T = (30 * U['rho_reh_mp4'] / (math.pi**2 * g)) ** .25
    want = math.log(T / (bg.T_CMB / bg.T_RED)) + math.log(g / bg.G_S0) / 3
    mon.close('entropy', U['N0'] - U['N_reh'], want, rtol=0, atol=1e-8, what='a T g^1/3 conserved since the end of reheating', **inf)


def one(mon, U, V, b, K, g, inf, way, msg, w, dN):
    inf = dict(inf, way=way)
    amp = 1 + 10 / dN
    mon.close('energy', U['rho_reh_mp4'], 1.5 * V * math.exp(-3 * (1 + U['w_reh']) * U['DeltaN_reh']), rtol=1e-10, what='energy density at the end of reheating', **inf)
    mon.close('energy', U['rho_reh_mp4'], (U['rho_reh_GeV'] / bg.M_GEV)**4, rtol=1e-9, what='units', **inf)
    mon.close('energy', [U['N_reh'] - U['N_end'], U['_N_reh'] - b._N_end], U['DeltaN_reh'], rtol=0, atol=1e-10, what='duration', **inf)
    mon.close('radiation', U['DeltaN_minus1'], U['DeltaN_reh'] * (1 - 3 * U['w_reh']) / 4, rtol=0, atol=1e-10 * amp, what='difference to instantaneous reheating', **inf)
    entropy(mon, U, g, inf)
    late = U['N_reh'] > U['N0']
    if abs(U['N_reh'] - U['N0']) > 1e-6 and U['DeltaN_reh'] > 1e-6:
        mon.check('announced', bool(msg) == late, what='warnings', msg=msg, late=late, **inf)
