"""C10: shooting initial conditions produce runs with the requested targets."""
import math
import warnings
import numpy as np
from .. import bg, flow
from ..pots import Pot, FEATURES
from .c11 import omega_k0, C_KMS

PROPERTY = 'C10'
RULE = ('random potential, curvature, clock and way of fixing the initial scale factor; a target is computed by own integration from a random field value, and both shooting initial conditions are asked for it with narrow, wide, '
        'reversed and extreme brackets (ends checked by own integration to lie on both sides of the target). The start that was found is integrated again by own integrator and the target is measured there. '
        'Non-trivial = distinct (family, curvature, clock, kind of target, kind of bracket, fixed scale factor).')
REQUIRED = {'N_tot': 25, 'N_star': 8, 'state': 100, 'reported': 50}
TIMEOUT = 140


def cases(rng, tier):
    n = 56 if tier == 'quick' else 900
    out = []
    for i in range(n):
        target = ['N_tot', 'N_star'][i % 2] if i % 8 != 7 else 'N_tot'
        K = [0, 1, -1][i % 3] if target == 'N_tot' else [1, -1][i // 2 % 2]
        tight = K == 1 and i % 2 == 1 and rng.random() < .6
        kinds = ['Natural', 'DoubleWell2', 'DoubleWell4'] if tight and rng.random() < .5 else bg.SMOOTH
        s = bg.random_scenario(rng, kinds=kinds + (list(FEATURES) if i % 4 == 0 else []), K=K, N=(52, 72), ic='IS', clock='tN'[i // 4 % 2])
        s.update(kind=target, seed=int(rng.integers(2**31)), bracket=['narrow', 'wide', 'extreme'][int(rng.integers(3))], reverse=bool(rng.random() < .4), rtol=1e-10, atol=1e-13, grid=bool(rng.random() < .3))
        if tight:
            # closed, given the scale factor: the end of the bracket with the smaller potential has no start at all
            V = Pot.from_spec(s['pot']).VdV(s['phi_i'])[0]
            s.pop('Omega_Ki', None)
            s.update(N_i=float(.5 * math.log(2 / V * (1 + 1 / rng.uniform(.6, 1.6)))), bracket='extreme')
        out.append(s)
    return out


def measure(s, phi):
    """(N_tot, Ref) of a start at phi; N_tot = 0 where there is no inflation, inf where it does not end."""
    d = bg.initial_state(dict(s, phi_i=float(phi)))
    if d is None:
        return 0.0, None
    P = Pot.from_spec(s['pot'])
    try:
        r = flow.Ref(P, s['K'], d['phi'], d['dphidt'], d['N'], rtol=1e-11)
    except ValueError:
        return 0.0, None
    if not r.ok:
        return math.nan, r
    if r.N_end is None:
        return math.inf, r
    # inflation begins at the start (marginally); with an intermission its beginning is the last crossing upwards
    return r.N_end - r.N_i, r


def n_star(r, laH_star):
    from scipy.optimize import brentq
    f = lambda N: math.log(r.at(N)['H'][0]) + N - laH_star
    a, b = r.N_i, r.N_end
    if f(a) > 0 or f(b) < 0:
        return math.nan
    return r.N_end - brentq(f, a, b, xtol=1e-11)


def bracket(s, P, rng, N):
    from scipy.optimize import brentq
    base = Pot('Starobinsky', P.Lambda) if P.kind.startswith('Starobinsky') else P
    kind = s['bracket']
    try:
        N = brentq(lambda n: base.phi_of_N(n) - s['phi_i'], 8., 200., xtol=1e-6)
    except (TypeError, ValueError):
        pass
    if kind == 'narrow':
        lo, hi = N - rng.uniform(1, 6), N + rng.uniform(1, 8)
    elif kind == 'wide':
        lo, hi = N - rng.uniform(6, 30), N + rng.uniform(8, 60)
    else:
        lo, hi = max(N - rng.uniform(40, 55), 8.5), N + rng.uniform(60, 250)
    a, c = base.phi_of_N(lo), base.phi_of_N(hi)
    return (a, c)


def run_case(case, mon):
    from primpy.initialconditions import ISIC_Nt, ISIC_NsOk
    from primpy.exceptionhandling import InsufficientInflationError
    rng = np.random.default_rng(case['seed'])
    P, K = Pot.from_spec(case['pot']), case['K']
    target = case['kind']
    fixed = 'N_i' if 'N_i' in case else 'Omega_Ki'
    mon.tag(family=P.kind, K=K, clock=case['clock'], target=target, bracket=case['bracket'], fixed=fixed, grid=case['grid'])
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        want, ref = measure(case, case['phi_i'])
        if ref is None or not math.isfinite(want) or want < 15 or (ref.N_up is not None and ref.N_up > ref.N_i + .01):
            mon.obs('no target')
            return
        if K > 0:
            # an almost static universe: its duration is not determined by the start to any useful accuracy; and where the field
            # velocity passes dphi/dN = sqrt(6) (only for Omega_K < -2) the Friedmann equation in e-folds is 0/0
            x = np.linspace(ref.N_i, ref.N_i + 4, 200)
            if np.max(np.exp(-2 * x) / ref.at(x)['H']**2) > (1.7 if case['clock'] == 'N' else 50):
                mon.obs('almost static')
                return
        br = bracket(case, P, rng, want + 8)
        if None in br or not np.all(np.isfinite(br)):
            mon.obs('no bracket')
            return
        # the ends of the bracket lie on both sides
        ends = [measure(case, p) for p in br]
        if not ends[0][0] < want - 1e-3 or not ends[1][0] > want + 1e-3:
            mon.obs('bracket without the solution')
            return
        if target == 'N_star':
            h = float(rng.uniform(.5, .9))
            N_x = float(rng.uniform(ref.N_i + 1, ref.N_end - 8))
            laH = N_x + math.log(ref.at(N_x)['H'][0])
            ok0 = omega_k0(K, math.exp(laH) / (bg.K_PIVOT * bg.LP_MPC), h)
            want_tot, want = want, n_star(ref, laH)
            if not math.isfinite(want):
                mon.obs('no target')
                return
            v = [(-1.0 if e[1] is None or e[1].N_end is None or e[0] < want else n_star(e[1], laH)) if math.isfinite(e[0]) else math.inf for e in ends]
            if not v[0] < want - 1e-3:
                mon.obs('bracket without the solution')
                return
            if not v[1] > want + 1e-3:
                mon.obs('bracket without the solution')
                return
        if case['reverse']:
            br = br[::-1]
        a = {fixed: case[fixed]}
        if case['clock'] == 't':
            a['t_i'] = case['t_i']
        eq = bg.make_equations(case)
        info = dict(pot=repr(P), K=K, clock=case['clock'], target=target, wanted=want, bracket=br, fixed=a, ends=[e[0] for e in ends])
        br = [float(x) for x in br]
        if target == 'N_tot':
            ic = ISIC_Nt(eq, N_tot=want, phi_i_bracket=br, **a)
        else:
            ic = ISIC_NsOk(eq, N_star=want, Omega_K0=ok0, h=h, phi_i_bracket=br, **a)
        kw = {}
        if case['grid'] and (case['clock'] == 't' or fixed == 'N_i'):
            if case['clock'] == 'N':
                kw['t_eval'] = case['N_i'] + np.arange(0, 320, .02)
            else:
                kw['t_eval'] = case['t_i'] + np.arange(0, 3e4) * .05 / float(ref.at(ref.N_i + 1)['H'][0])
        b = bg.run(case, eq=eq, ic=ic, **kw)
        phi = float(ic.phi_i)
        # the state that was found
        d = bg.initial_state(dict(case, phi_i=phi))
        if not mon.check('state', d is not None and min(br) - 1e-9 <= phi <= max(br) + 1e-9, what='outside of the bracket', phi=phi, **info):
            return
        mon.close('state', [b.phi[0], b._N[0], bg.dphidt_of(b)[0], b.H[0], ic.N_i], [phi, d['N'], d['dphidt'], d['H'], d['N']], rtol=1e-9, atol=1e-12, phi=phi, **info)
        mon.close('state', [ic.V_i, ic.H_i], [P.VdV(phi)[0], d['H']], rtol=1e-9, **info)
        if 'Omega_Ki' in case:
            mon.close('state', [ic.Omega_Ki, b.Omega_K[0]], [case['Omega_Ki']] * 2, rtol=1e-8, **info)
        # the target, measured by own integration of the found start
        got, r = measure(case, phi)
        dphi = 1e-6 * (1 + abs(phi)) if case['clock'] == 'N' else 1e-10
        up, dn = measure(case, phi + 2e-5)[0], measure(case, phi - 2e-5)[0]
        slope = max(abs(up - got), abs(got - dn)) / 2e-5
        slope = slope if math.isfinite(slope) else 1e4
        amp = 2e-6 * (1 + slope)                      # accuracy of the integrations inside of the search
        if target == 'N_tot':
            mon.close('N_tot', got, want, atol=3 * slope * dphi + amp, phi=phi, **info)
            mon.close('reported', [b.N_tot, ic.N_tot], [want] * 2, atol=3 * slope * dphi + amp, phi=phi, slope=slope, **info)
        else:
            got = n_star(r, laH)
            # the library measures by linear interpolation between its samples
            c = bg.run(case, method='RK45', ic=bg.make_ic(dict(case, phi_i=phi), eq), eq=eq)
            err = interp_error(c, P, K, laH) + interp_error(b, P, K, laH)
            tol = 3 * slope * dphi + amp + 2 * err
            mon.close('N_star', got, want, atol=tol, phi=phi, slope=slope, interp=err, **info)
            mon.close('reported', [ic.N_star, ic.Omega_K0, ic.h], [want, ok0, h], rtol=1e-14, **info)
            mon.close('reported', math.exp(ic.N0) * bg.LP_MPC, C_KMS / (100 * h) * math.sqrt(-K / ok0), rtol=1e-8, **info)
            try:
                b.calibrate_scale_factor(Omega_K0=ok0, h=h)
                mon.close('reported', b.N_star, want, atol=tol, phi=phi, **info)
            except (InsufficientInflationError, TypeError) as e:
                mon.obs('calibration refused')
        mon.seen(P.kind, K, case['clock'], target, case['bracket'], fixed)
        mon.sample(phi=phi, got=got, **info)


def interp_error(b, P, K, laH):
    own = bg.Own(b, P, K)
    i = int(np.argmax(own.laH > laH))
    if i == 0:
        return math.nan
    h = own.N[i] - own.N[i - 1]
    v, err, sl = own.laH_at(own.N[i - 1] + h / 2)
    return 2 * err / max(min(own.slope[i - 1], own.slope[i]), 1e-3)
