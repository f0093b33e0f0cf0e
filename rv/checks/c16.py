"""C16: coefficients of the mode equations and vacuum initial conditions, against an independent Newtonian-gauge derivation."""
import math
import sys
import warnings
import numpy as np
from .. import bg, flow
from ..jets import Jet
from ..pots import Pot, FEATURES

PROPERTY = 'C16'
RULE = ('random background (potential, curvature, clock, inflating, kinetic or uphill start) and wavenumber from far outside to far inside the first horizon; every coefficient array that reaches the oscillator '
        'solver is recorded at its boundary and, at recorded samples, compared with the coefficients of the equation that two independent exact Newtonian-gauge perturbations obey. '
        'Non-trivial = distinct (family, curvature, clock, start, sub/super-horizon wavenumber).')
REQUIRED = {'scalar coefficients': 2000, 'tensor coefficients': 2000, 'vacuum': 500, 'calls': 60, 'range': 500}
TIMEOUT = 100
LD = np.longdouble


def cases(rng, tier):
    n = 72 if tier == 'quick' else 1600
    out = []
    for i in range(n):
        K = [0, 1, -1][i % 3]
        s = bg.random_scenario(rng, kinds=bg.SMOOTH + list(FEATURES), K=K, N=(30, 70), clock='tN'[i // 3 % 2])
        s.update(kind='modes', seed=int(rng.integers(2**31)))
        if s['ic'] == 'IS' and rng.random() < .6:
            s['boost'] = float(10 ** rng.uniform(0.05, 1.5))
            s['method'] = 'DOP853'
        if K == 0 and rng.random() < .2:
            s['boost'] = -float(rng.uniform(.2, .9))
            s['ic'], s['method'] = 'IS', 'DOP853'
        out.append(s)
    return out


class Exact:
    """Taylor series in cosmic time through recorded states, and what perturbation theory says there.  All arrays."""

    def __init__(self, P, K, phi, u, N):
        self.K = K
        self.F = F = flow.Flow(P, phi, u, N, K, order=5)
        self.a2 = np.exp(2 * np.asarray(N, dtype=LD))
        self.vj = P.jet(np.asarray(phi, dtype=LD), 7)
        self.H, self.N = F.H, F.N
        self.u = F.phi.d()
        self.h0, self.u0 = F.H.c[0], self.u.c[0]
        self.hd = F.H.d().c[0]
        from ..jets import compose, exp
        self.dV = compose(self.vj.d().trunc(4), F.phi.trunc(4))
        self.ia2 = exp(F.N * LD(-2))

    def scalar_t(self, k):
        """(omega^2, 2 gamma) of R'' + 2 gamma R' + omega^2 R = 0 in cosmic time."""
        K = self.K
        p2 = LD(k) * LD(k) + LD(k) * K * (K + 1)
        kap = p2 - 3 * K
        n = 2
        u, H, dV, ia2 = (x.trunc(n) for x in (self.u, self.H, self.dV, self.ia2))
        half = LD('0.5')
        A = ((u * u * half) - ia2 * kap) * 2 / u            # d(dphi)/dt = A Phi + B dphi   (energy constraint)
        B = -(dV + H * u * 3) / u
        C = u * half                                        # dPhi/dt = C dphi - H Phi      (momentum constraint)
        one = np.ones_like(self.u0)
        sols = []
        # scale the second solution so that both contribute alike to R
        for x0, f0 in ((one, 0 * one), (0 * one, self.h0 / self.u0)):
            x, f = Jet([x0]), Jet([f0])
            for m in range(n):
                xm, fm = x.trunc(m), f.trunc(m)
                dx = A.trunc(m) * fm + B.trunc(m) * xm
                df = C.trunc(m) * xm - H.trunc(m) * fm
                x = Jet(x.c + [dx.c[m] / (m + 1)])
                f = Jet(f.c + [df.c[m] / (m + 1)])
            R = f + H * x / u
            sols.append((R.c[0], R.c[1], 2 * R.c[2]))
        (a, b, c), (d, e, g) = sols
        det = a * e - d * b
        # a w + b g2 = -c ; d w + e g2 = -g
        w = (-c * e + g * b) / det
        g2 = (-a * g + d * c) / det
        return w, g2

    def tensor_t(self, k):
        K = self.K
        p2 = LD(k) * LD(k) + LD(k) * K * (K + 1)
        return (p2 + 2 * K) / self.a2, 3 * self.h0

    def in_clock(self, clock, w, g):
        if clock == 't':
            return w, g
        return w / self.h0**2, g / self.h0 + self.hd / self.h0**2

    def z(self, tensor):
        """ln-derivatives of z in conformal time: (z0, z'/z, z''/z)."""
        from ..jets import exp
        N = self.N.trunc(2)
        z = exp(N) * LD('0.5') if tensor else exp(N) * self.u.trunc(2) / self.H.trunc(2)
        a = exp(N)
        z1 = a.trunc(1) * z.d()
        z2 = a.trunc(0) * z1.d()
        return z.c[0], z1.c[0] / z.c[0], z2.c[0] / z.c[0]


class Recorder:
    """Stands between the library and pyoscode.solve."""

    def __init__(self):
        self.calls = []

    def __enter__(self):
        import pyoscode
        import primpy.oscode_solver as m
        self.orig = pyoscode.solve
        lib = [m] + [q for name, q in list(sys.modules.items()) if name.startswith('primpy') and q is not None and q is not m]
        self.mods = [(pyoscode, 'solve')] + [(q, n) for q in lib for n, v in list(vars(q).items()) if v is self.orig]

        def solve(ts, ws, gs, ti, tf, x0, dx0, *a, **kw):
            self.calls.append(dict(ts=np.array(ts), ws=np.array(ws), gs=np.array(gs), ti=float(ti), tf=float(tf), x0=x0, dx0=dx0,
                                   logw=kw.get('logw', False), logg=kw.get('logg', False)))
            return self.orig(ts, ws, gs, ti, tf, x0, dx0, *a, **kw)
        for o, n in self.mods:
            setattr(o, n, solve)
        return self

    def __exit__(self, *a):
        for o, n in self.mods:
            setattr(o, n, self.orig)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    P, K, clock = Pot.from_spec(case['pot']), case['K'], case['clock']
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            ref = bg.reference(case)
        except ValueError:
            return
        if not ref.ok or ref.N_end is None or ref.N_end - ref.N0 < 20 or ref.N_up is not None and ref.N_end - ref.N_up < 16:
            mon.obs('too short')
            return
        b = bg.run(case)
        if not (np.isfinite(b._N_end) and b._N_end - b._N[0] > 20):
            mon.obs('too short')
            return
        mon.tag(family=P.kind, K=K, clock=clock)
        if not bg.calibrate_somehow(b, K, rng):
            mon.obs('not calibrated')
            return
        modes(case, mon, rng, P, K, clock, b)


def modes(case, mon, rng, P, K, clock, b):
    from primpy.oscode_solver import solve_oscode
    own = bg.Own(b, P, K)
    q = b.dphidt if clock == 't' else b.dphidN * own.H
    if np.any(np.diff(np.sign(q)) != 0):
        # z = a phidot / H changes sign: the equation for R is singular there, only the samples away from it count
        mon.obs('turning')
    aH0 = math.exp(own.laH[0])
    lo, hi = own.laH.min(), own.laH.max()
    for _ in range(6):
        lk = float(rng.uniform(lo - 1.5, min(hi - 8, lo + 9)))
        k = math.exp(lk)
        if K > 0:
            k = float(max(1, round(k))) if rng.random() < .6 else max(k, .05)
        elif K < 0:
            k = max(k, 1e-3)
        fac_beg = float(rng.choice([0, 10, 100]))
        fac_end = float(rng.choice([20, 100, 1000]))
        if not np.any(own.laH - math.log(k) > math.log(fac_end)) or own.N[-1] - own.N[0] < 12:
            continue
        vac = [('RST',), ('k', 'HD', 'RST'), ('HD', 'k')][int(rng.integers(3))]
        with Recorder() as rec:
            try:
                p = solve_oscode(b, k, vacuum=vac, fac_beg=fac_beg, fac_end=fac_end, even_grid=False)
            except IndexError:
                # the run ends less than ten e-folds after the mode starts
                mon.check('refused only when short', short(own, k, fac_beg), k=k)
                continue
        mon.obs('modes')
        direct(mon, rng, clock, b, k)
        mon.seen(P.kind, K, clock, 'kd' if case.get('boost', 1) > 1.5 else 'up' if case.get('boost', 1) < 0 else 'inf', int(np.clip(math.log10(k / aH0), -1, 3)))
        judge(mon, rng, P, K, clock, b, own, q, k, p, rec.calls, vac)


def direct(mon, rng, clock, b, k):
    """mode objects made without the solver: without a range they cover the whole run, and a range selects samples of it (both ends included)."""
    if clock == 't':
        from primpy.time.perturbations import PerturbationT as Pert
    else:
        from primpy.efolds.perturbations import PerturbationN as Pert
    n = b.x.size
    i = int(rng.integers(0, n - 2))
    j = int(rng.integers(i + 1, n))
    whole, part = Pert(background=b, k=k), Pert(background=b, k=k, idx_beg=i, idx_end=j)
    for name in ('scalar', 'tensor'):
        w, q = getattr(whole, name), getattr(part, name)
        if not mon.check('range', np.shape(w.ms_frequency) == (n,) and np.shape(w.ms_damping) == (n,) and np.shape(q.ms_frequency) == (j - i + 1,) and np.shape(q.ms_damping) == (j - i + 1,),
                         mode=name, n=n, i=i, j=j, sizes=[np.size(w.ms_frequency), np.size(q.ms_frequency)], k=k):
            continue
        mon.check('range', np.allclose(np.asarray(w.ms_frequency)[i:j + 1], q.ms_frequency, rtol=1e-9, atol=0, equal_nan=True)
                  and np.allclose(np.asarray(w.ms_damping)[i:j + 1], q.ms_damping, rtol=1e-9, atol=0, equal_nan=True), mode=name, i=i, j=j, what='samples', k=k)
        first = Pert(background=b, k=k, idx_beg=0, idx_end=j)
        for v in ('k', 'HD', 'RST'):
            g, h = (getattr(getattr(o, name), 'get_vacuum_ic_' + v)() for o in (whole, first))
            mon.check('range', np.allclose(np.array(g), np.array(h), rtol=1e-9, atol=0, equal_nan=True), mode=name, what='vacuum of the first sample', v=v, k=k)


def short(own, k, fac_beg):
    i = np.nonzero(math.log(k) - own.laH > math.log(fac_beg))[0] if fac_beg else np.array([0])
    i = i[-1] if i.size else 0
    return not np.any(own.N - own.N[i] > 10)


def judge(mon, rng, P, K, clock, b, own, q, k, p, calls, vac):
    x = np.asarray(b.x)
    info = dict(k=k, pot=repr(P))
    mon.check('calls', len(calls) == 4, n=len(calls), **info)
    seen = {'scalar': [], 'tensor': []}
    i0 = None
    for c in calls:
        i0 = int(np.searchsorted(x, c['ts'][0]))
        n = c['ts'].size
        if not mon.check('samples', i0 + n <= x.size and np.array_equal(c['ts'], x[i0:i0 + n]) and c['ti'] == x[i0] and c['tf'] == x[i0 + n - 1]
                         and c['ws'].shape == (n,) and c['gs'].shape == (n,), n=n, i0=i0, ti=c['ti'], tf=c['tf'], **info):
            continue
        w = np.exp(c['ws'].astype(complex)) if c['logw'] else c['ws'].astype(complex)
        w2 = (w * w).real
        g2 = 2 * (np.exp(c['gs']) if c['logg'] else c['gs'])
        idx = np.unique(np.concatenate([[0, 1, n - 1], rng.integers(0, n, 60)]))
        sl = i0 + idx
        # stay away from exact zeros of the velocity and judge relative to the conditioning of the terms
        ex = Exact(P, K, np.asarray(b.phi)[sl], q[sl], own.N[sl])
        ws, gs = ex.in_clock(clock, *ex.scalar_t(k))
        wt, gt = ex.in_clock(clock, *ex.tensor_t(k))
        sc = own.H[sl] if clock == 't' else 1.0
        p2 = (k * k + k * K * (K + 1) + 3) * np.exp(-2 * own.N[sl]) / (1.0 if clock == 't' else own.H[sl]**2)
        kappa = k * k + k * K * (K + 1) - 3 * K
        with np.errstate(all='ignore'):
            f = abs(P_dV(P, b, sl)) / (own.H[sl] * np.abs(q[sl])) + 4
            amp = 1 + abs(K) * np.maximum(1, abs(kappa) / np.abs(kappa + K * q[sl]**2 / (2 * own.H[sl]**2)))
        # a state carries rounding errors of its own: H is recomputed from it, relative error eps * (terms of the Friedmann equation)
        fr = (1 + abs(K) * np.exp(-2 * own.N[sl]) / own.H[sl]**2 + (q[sl]**2 / own.H[sl]**2))
        rel = 3e-12 * fr * amp**2
        ctol_w = rel * (p2 + f * amp * sc**2 * (1 + abs(K) * np.exp(-2 * own.N[sl]) / own.H[sl]**2))
        ctol_g = rel * f * amp * sc
        es = np.max(np.abs(w2[idx] - ws) / ctol_w + np.abs(g2[idx] - gs) / ctol_g)
        et = np.max(np.abs(w2[idx] - wt) / ctol_w + np.abs(g2[idx] - gt) / ctol_g)
        kind = 'scalar' if es < et else 'tensor'
        if not np.isfinite(es + et):
            mon.check('finite', np.all(np.isfinite(w2)) and np.all(np.isfinite(g2)), **info)
            continue
        ww, gg = (ws, gs) if kind == 'scalar' else (wt, gt)
        if len(seen[kind]) >= 2:           # both would look alike
            kind = 'scalar' if kind == 'tensor' else 'tensor'
        seen[kind].append((c['x0'], c['dx0']))
        mon.close(kind + ' coefficients', w2[idx], ww.astype(float), atol=ctol_w, what='frequency', clock=clock, **info)
        mon.close(kind + ' coefficients', g2[idx], gg.astype(float), atol=ctol_g, what='damping', clock=clock, **info)
    for kind, l in seen.items():
        mon.check('independent solutions', len(l) == 2 and l[0][0] * l[1][1] != l[0][1] * l[1][0], kind=kind, n=len(l), **info)
    if i0 is None:
        return
    # vacuum initial conditions at the first sample handed over
    ex = Exact(P, K, np.asarray(b.phi)[[i0]], q[[i0]], own.N[[i0]])
    a, H = math.exp(own.N[i0]), own.H[i0]
    for tag, mode in (('s', p.scalar), ('t', p.tensor)):
        z, z1, z2 = (float(v[0]) for v in ex.z(tag == 't'))
        for v in ('k', 'HD', 'RST'):
            u, du = getattr(mode, 'get_vacuum_ic_' + v)()
            u, du = complex(u), complex(du) * a * (1 if clock == 't' else H)       # d/d(conformal time)
            w2 = k * k - z2 if v == 'HD' else k * k
            cond = 1 + (k * k + abs(z2) + (a * H)**2 * 20) / abs(w2)
            tol = 1e-11 * cond * (1 + (float(ex.u0[0]) / H)**2 + abs(K) / (a * H)**2) * (1 + abs(z1) / k)
            if tol > 1e-5:
                mon.obs('vacuum undefined')
                continue
            if w2 <= 0:
                mon.obs('no HD vacuum')
                continue
            w = math.sqrt(w2)
            mon.close('vacuum', abs(u) * abs(z) * math.sqrt(2 * w), 1, rtol=tol, what='amplitude', v=v, mode=tag, **info)
            want = (-1j * w - (z1 if v != 'RST' else 0)) * u
            mon.close('vacuum', abs(du - want) / abs(want), 0, atol=10 * tol, what='slope', v=v, mode=tag, **info)
            # Wronskian of the canonical variable: v conj(v') - conj(v) v' = i
            W = z * z * (u * du.conjugate() - u.conjugate() * du)
            mon.close('vacuum', abs(W - 1j), 0, atol=10 * tol, what='Wronskian', v=v, mode=tag, **info)
    mon.sample(k=k, n=[c['ts'].size for c in calls], kinds={a: len(v) for a, v in seen.items()})


def P_dV(P, b, sl):
    return np.array([P.VdV(float(x))[1] for x in np.asarray(b.phi)[sl]])
