"""C23: backward integration retraces the same universe and a borrowed calibration gives it the same scales."""
import math
import warnings
import numpy as np
from scipy import integrate
from .. import bg
from ..pots import Pot, FEATURES
from .c11 import background, calibrations, omega_k0
from .c13 import digest, compare

PROPERTY = 'C23'
RULE = ('random forward run (potential, curvature, clock); continuations start from its initial conditions or from one of its recorded states, in either clock, forwards or backwards, and stop at a number of e-folds or at a value of '
        'the independent variable. Trajectories are compared with own integration (in variables that stay regular in kinetic domination) and with the recorded forward samples; calibrations are borrowed from the forward run. '
        'Non-trivial = distinct (family, curvature, clocks, start, direction, stop, calibration route).')
REQUIRED = {'retrace': 2000, 'stops': 40, 'round trip': 100, 'scales': 2000, 'wavenumbers': 400, 'pivot': 100, 'lender': 20, 'refused': 40, 'conformal time': 8}
TIMEOUT = 120


def cases(rng, tier):
    n = 100 if tier == 'quick' else 1500
    out = []
    for i in range(n):
        s = bg.random_scenario(rng, kinds=bg.SMOOTH + (list(FEATURES) if i % 3 == 0 else []), K=[0, 0, 1, -1][i % 4], N=(58, 76), clock='tN'[i // 4 % 2])
        s.update(kind='continue', seed=int(rng.integers(2**31)), rtol=1e-11, atol=1e-13)
        if s['ic'] == 'IS' and rng.random() < .3 and s['method'] != 'LSODA':
            s['boost'] = float(10 ** rng.uniform(0.05, 0.5))
        out.append(s)
    return out


class Line:
    """own integration in e-folds of (phi, dphi/dt, t, eta) in units of the starting Hubble rate, in either direction."""

    def __init__(self, P, K, phi, u, N, t, eta, N1):
        self.P, self.K = P, K
        V = P.VdV(phi)[0]
        self.Hi = Hi = math.sqrt((u * u / 2 + V) / 3 - K * math.exp(-2 * N))
        self.N, self.t, self.eta = N, t, eta

        def rhs(x, y):
            V, dV = P.VdV(y[0])
            v = y[1] * Hi
            H2 = (v * v / 2 + V) / 3 - K * math.exp(-2 * x)
            if not H2 > 0:
                return [math.nan] * 4
            H = math.sqrt(H2)
            return [v / H, (-3 * v - dV / H) / Hi, Hi / H, math.exp(-(x - N)) * Hi / H]
        self.s = integrate.solve_ivp(rhs, (N, N1), [phi, u / Hi, 0., 0.], method='DOP853', rtol=1e-12, atol=1e-15, dense_output=True)
        self.ok = self.s.status == 0

    def at(self, x):
        y = self.s.sol(x)
        V = np.array([self.P.VdV(p)[0] for p in np.atleast_1d(y[0])])
        u = y[1] * self.Hi
        H = np.sqrt((u**2 / 2 + V) / 3 - self.K * np.exp(-2 * np.asarray(x)))
        return dict(phi=y[0], u=u, H=H, q=u / H, t=self.t + y[2] / self.Hi, eta=self.eta + y[3] * math.exp(-self.N) / self.Hi, V=V)


def run_case(case, mon):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.events import UntilNEvent, InflationEvent, CollapseEvent
    from primpy.solver import solve
    rng = np.random.default_rng(case['seed'])
    P, K = Pot.from_spec(case['pot']), case['K']
    f, ref = background(case, mon, rng)
    if f is None:
        return
    mon.tag(family=P.kind, K=K, clock=case['clock'], ic=case['ic'])
    own = bg.Own(f, P, K)
    if K > 0 and np.max(np.exp(-2 * own.laH[:max(3, own.N.size // 10)])) > 1.7:
        mon.obs('almost static')
        return
    if K > 0 and case['clock'] == 'N' and np.min(1 - (own.u / own.H)**2 / 6) < 1e-3:
        mon.obs('0/0 of the Friedmann equation in e-folds')
        return
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        calibs = calibrations(f, own, K, rng)
        name = ''
        for q in rng.permutation(len(calibs)) if K == 0 else []:
            name, ckw = calibs[q]
            try:
                f.calibrate_scale_factor(**ckw)
                break
            except Exception as e:                                 # the calibration itself is the subject of C11
                mon.obs('not calibrated: %s' % type(e).__name__)
                name = ''
        if name:
            lender = digest(f)
            const = np.log(f.cHH_Mpc) + own.laH                    # one number: ln(cHH aH)
        eta0 = float(rng.choice([0.0, 0.37])) * math.exp(-own.laH[0])
        for k in range(3):
            start = ['start', 'mid', 'mid'][k]
            clock = case['clock'] if rng.random() < .5 else 'tN'[case['clock'] == 't']
            track = bool(rng.random() < .6)
            sign = -1 if start == 'start' or rng.random() < .6 else 1
            if start == 'start':
                i = 0
            else:
                lo = int(np.searchsorted(own.N, own.N[0] + .4))
                i = int(rng.integers(min(lo, own.N.size - 3), own.N.size - 2))
            t0 = float(f.t[i]) if hasattr(f, 't') else float(rng.uniform(.1, 3) / own.H[i])
            phi0, u0, N0, H0 = float(f.phi[i]), float(own.u[i]), float(own.N[i]), float(own.H[i])
            if sign < 0:
                d = float(rng.uniform(.3, 2.2 if start == 'start' and clock == 't' else 1.2 if start == 'start' else 3.0))
                if start == 'mid' and rng.random() < .4:
                    d = N0 - own.N[0] + float(rng.uniform(.1, .8)) if N0 - own.N[0] < 2.5 else d
            else:
                d = float(rng.uniform(.3, 1)) * min(20., f._N_end - N0 - .1)
                if d < .05:
                    continue
            N1 = N0 + sign * d
            line = Line(P, K, phi0, u0, N0, t0, eta0, N1)
            if not line.ok:
                mon.obs('no own continuation')
                continue
            e = line.at(np.array([N1]))
            if K > 0 and (np.max(np.exp(-2 * np.linspace(N1, N0, 50)) / line.at(np.linspace(N1, N0, 50))['H']**2) > 1.7) or (clock == 'N' and 1 - e['q'][0]**2 / 6 < 1e-6):
                mon.obs('outside of the domain of the time variable')
                continue
            stop = 'x_end' if rng.random() < .4 else 'until N'
            x_end = (float(e['t'][0]) if clock == 't' else N1) if stop == 'x_end' else sign * 1e300
            if stop == 'until N' and clock == 'N':
                x_end = N0 + sign * 60.
            Eq = InflationEquationsT if clock == 't' else InflationEquationsN
            a = dict(K=K, potential=P.make(), track_eta=track)
            if clock == 'N':
                a['track_time'] = True
            eq = Eq(**a)
            ic = bg.state_ic(eq, phi0, u0, N0, H0, t=t0, eta=eta0, x_end=x_end)
            if start == 'start' and 'boost' not in case and rng.random() < .5 and stop == 'x_end':
                c2 = dict(case, clock=clock)
                if bg.initial_state(c2) is not None and abs(bg.initial_state(c2)['H'] / H0 - 1) < 1e-12:
                    kw = dict(x_end=x_end, t_i=t0)
                    if track:
                        kw['eta_i'] = eta0
                    ic = bg.make_ic(c2, eq, **kw)
            ev = [UntilNEvent(eq, N1)] if stop == 'until N' else []
            inf = bool(rng.random() < .6)
            if inf:
                ev += [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=False), CollapseEvent(eq)]
            b = solve(ic=ic, events=ev, rtol=1e-11, atol=1e-13 * min(1., abs(u0), math.exp(-N0) / H0 if track else 1.), method='DOP853')
            mon.seen(P.kind, K, case['clock'] + clock, start, sign, stop, name)
            info = dict(pot=repr(P), K=K, clocks=case['clock'] + clock, start=start, sign=sign, stop=stop, N0=N0, N1=N1, x_end=x_end)
            # it ends where it was asked to
            ok = mon.close('stops', b._N[-1], N1, rtol=1e-8, atol=1e-8, status=b.status, **info)
            if stop == 'x_end':
                mon.check('stops', b.x[-1] == x_end, x=b.x[-1], **info)
            mon.check('stops', np.all(np.diff(b.x) * sign > 0) and np.all(np.diff(b._N) * sign > 0), what='direction', **info)
            if not ok:
                continue
            # the trajectory
            N = np.clip(b._N, min(N0, N1), max(N0, N1))
            w = line.at(N)
            grow = np.exp(3 * np.maximum(N0 - N, 0)) * (1 if start == 'mid' else np.minimum(np.exp(3 * (N0 - N)), 100.) / np.exp(3 * (N0 - N)))
            amp = 1 / np.abs(1 - w['q']**2 / 6) if clock == 'N' else 1.0
            tol = 1e-9 * grow * amp + 1e-9 + (3e-10 / np.abs(1 - np.max(w['q']**2) / 6) if clock == 'N' else 0)
            umax = np.abs(w['u'])
            mon.close('retrace', b.phi, w['phi'], rtol=0, atol=tol * (1 + np.abs(w['phi'])), what='phi', **info)
            mon.close('retrace', bg.dphidt_of(b), w['u'], rtol=0, atol=tol * np.maximum(umax, np.max(umax) * 1e-3) * 20, what='velocity', **info)
            mon.close('retrace', b.H, w['H'], rtol=tol, what='H', **info)
            mon.close('retrace', b.t - t0, w['t'] - t0, rtol=0, atol=(tol + 3e-8) * np.max(np.abs(w['t'] - t0)) + 1e-13 * abs(t0), what='t', **info)
            if track:
                mon.close('retrace', b.eta - eta0, w['eta'] - eta0, rtol=0, atol=(tol + 3e-8) * np.max(np.abs(w['eta'] - eta0)) + 1e-13 * abs(eta0), what='eta', **info)
            # and the recorded forward samples
            m = (own.N > min(N0, N1)) & (own.N < max(N0, N1))
            if K > 0:                                              # errors of almost static epochs grow
                m &= (np.exp(-2 * own.laH) < .6) & (np.max(np.exp(-2 * own.laH)) < 1.2)
            if m.any():
                x = line.at(own.N[m])
                g = 1e-9 * np.exp(3 * np.maximum(N0 - own.N[m], 0)) + (1e-6 if K > 0 else 3e-8)
                mon.close('round trip', f.phi[m], x['phi'], rtol=0, atol=g * (1 + np.abs(x['phi'])), what='forward samples', **info)
                mon.close('round trip', own.H[m], x['H'], rtol=g, what='forward samples', **info)
            if sign < 0:
                # forwards again from the last state
                eq2 = Eq(**a)
                j = -1
                v1 = float(bg.dphidt_of(b)[j])
                ic2 = bg.state_ic(eq2, float(b.phi[j]), v1, float(b._N[j]), float(b.H[j]), t=float(b.t[j]), eta=float(b.eta[j]) if track else None,
                                  x_end=(1e300 if clock == 't' else N0 + 5.))
                r = solve(ic=ic2, events=[UntilNEvent(eq2, N0)], rtol=1e-11, atol=1e-13 * min(1., abs(u0), math.exp(-N0) / H0 if track else 1.), method='DOP853')
                T = float(np.max(tol))
                mon.close('round trip', [r.phi[-1], bg.dphidt_of(r)[-1] / u0, r.H[-1] / H0], [phi0, 1, 1], rtol=T, atol=T, what='there and back', **info)
                mon.close('round trip', r.t[-1] - float(b.t[-1]), t0 - float(b.t[-1]), rtol=T, atol=1e-13 * abs(t0), what='time there and back', **info)
                if track:
                    mon.close('round trip', r.eta[-1] - float(b.eta[-1]), eta0 - float(b.eta[-1]), rtol=T, atol=1e-13 * abs(eta0), what='conformal time there and back', **info)
            if name:
                borrow(mon, rng, f, b, own, P, const, lender, info)
        if K != 0:
            conformal(mon, rng, case, P, K)


def borrow(mon, rng, f, b, own, P, const, lender, info):
    ob = bg.Own(b, P, 0)
    for bad in (None, -float(f.N_star), float(f.N_star) * (1 + 1e-6), float(f.N_star) + 1.):
        try:
            b.calibrate_scale_factor(N_star=bad, background=f)
            mon.check('refused', False, N_star=bad, lender=float(f.N_star), **info)
        except ValueError:
            mon.check('refused', True)
        except Exception as e:
            mon.check('refused', False, N_star=bad, error=repr(e), **info)
    times = 1 + int(rng.random() < .3)
    for _ in range(times):
        try:
            b.calibrate_scale_factor(N_star=f.N_star, background=f)
        except Exception as e:
            mon.check('scales', False, error=repr(e), N_beg=b._N_beg, N_end=b._N_end, **info)
            return
    mon.close('scales', np.log(b.cHH_Mpc) + ob.laH, np.full(ob.N.size, np.median(const)), atol=1e-8, what='comoving Hubble horizon', **info)
    mon.close('scales', b.N - b._N, np.full(ob.N.size, f.N[0] - f._N[0]), atol=1e-10, what='calibrated e-folds', **info)
    for k in ('a0', 'a0_Mpc', 'N0', 'Omega_K0', 'delta_N_calib', 'N_star', 'N_cross', '_N_cross', 'N_end', '_N_end', 'H_star'):
        mon.close('pivot', float(b[k]), float(f[k]), rtol=1e-12, atol=1e-12, what=k, **info)
    # wavenumbers of the samples inside of the lender's inflation
    m = np.asarray(b.inflation_mask)
    k = np.asarray(b.k_iMpc)
    if not mon.check('wavenumbers', k.shape == b.logk.shape == b._k.shape == (int(m.sum()),), what='number', k=k.shape, mask=int(m.sum()), **info):
        return
    mon.close('wavenumbers', np.log(k) - ob.laH[m], np.full(k.size, -np.median(const)), atol=1e-8, **info)
    mon.close('wavenumbers', b.logk, np.log(k), atol=1e-12, **info)
    mon.check('wavenumbers', not np.any(m & ((ob.N < f._N_beg - 1e-6) | (ob.N > f._N_end + 1e-6))), what='outside of inflation', **info)
    inside = (ob.N > f._N_beg + 1e-6) & (ob.N < f._N_end - 1e-6) & (ob.acc > 0)
    inside[[0, -1]] = False
    mon.check('wavenumbers', not np.any(inside & ~m), what='missing', missing=int(np.sum(inside & ~m)), of=int(inside.sum()), N_beg=b._N_beg, N_end=b._N_end, **info)
    # the lender is as it was
    compare(mon, 'lender', digest(f), lender, **info)


def conformal(mon, rng, case, P, K):
    """the conformal time before the end of inflation, with and without a backward run."""
    from primpy import bigbang as bb
    from primpy.events import UntilNEvent
    eq = bg.make_equations(case, track_eta=True)
    c = dict(case)
    kw = {} if 'boost' in case else dict(eta_i=0.0)
    c['eta_i'] = 0.0
    f = bg.run(c, eq=eq, ic=bg.make_ic(c, eq, **kw))
    if not np.isfinite(f.N_tot) or f.N_tot < 20:
        return
    h, Om = float(rng.uniform(.5, .9)), float(rng.uniform(.1, .5))
    n = int(np.argmin(np.abs(f._N - f._N_beg - rng.uniform(5, 12))))
    OK = omega_k0(K, math.exp(f._logaH[n]) / (bg.K_PIVOT * bg.LP_MPC), h)
    if abs(OK) > .5:
        return
    try:
        f.calibrate_scale_factor(Omega_K0=OK, h=h)
    except Exception as e:
        mon.obs('not calibrated: %s' % type(e).__name__)
        return
    own = bg.Own(f, P, K)
    N0 = float(f._N[0])
    N1 = N0 - float(rng.uniform(.4, 1.2))
    line = Line(P, K, float(f.phi[0]), float(own.u[0]), N0, 0.0, 0.0, N1)
    e = line.at(np.array([N1]))
    if not line.ok or not np.isfinite(e['eta'][0]) or 1 - e['q'][0]**2 / 6 < 1e-5 and case['clock'] == 'N' or K > 0 and np.exp(-2 * N1) / e['H'][0]**2 > 1.7:
        return
    kw['x_end'] = -1e300 if case['clock'] == 't' else N0 - 40.
    if 'boost' in case:
        d = bg.initial_state(c)
        ic = bg.state_ic(eq, d['phi'], d['dphidt'], d['N'], d['H'], t=case['t_i'], eta=0.0, x_end=kw['x_end'])
    else:
        ic = bg.make_ic(c, eq, **kw)
    b = bg.run(c, eq=eq, ic=ic, events=[UntilNEvent(eq, N1)])
    info = dict(pot=repr(P), K=K, clock=case['clock'], N1=N1, OK=OK, h=h, Om=Om)
    ref = bg.reference(c)
    eta_end = float(ref.at(ref.N_end)['eta'][0])
    r2 = float(bb.conformal_time_ratio(Om, OK, h, f, b))
    r1 = float(bb.conformal_time_ratio(Om, OK, h, f))
    mon.close('conformal time', r2 / r1, (eta_end - float(e['eta'][0])) / eta_end, rtol=1e-5 if K > 0 else 1e-6, **info)
