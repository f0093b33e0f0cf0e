"""C04: background solutions satisfy the Friedmann and Klein-Gordon equations; derived arrays are those of the state."""
import math
import warnings
import numpy as np
from .. import bg, flow
from ..pots import Pot, FEATURES

PROPERTY = 'C04'
RULE = ('random potential (all families, two with features), curvature, time variable, slow-roll or inflation-start state, tracked extra '
        'variables and integrator; (a) every derivative evaluation of the real integration is judged online, (b) the returned rows are '
        'compared with an independent e-fold integrator, (c) derived arrays and accessors are recomputed from the rows. Non-trivial = '
        'distinct (family, curvature, time variable, initial condition, method, options) of a run that reached the end of inflation.')
REQUIRED = {'rhs': 20000, 'trajectory': 2000, 'derived arrays': 2000, 'accessors': 1000, 'conformal time': 200, 'cosmic time': 200,
            'default accuracy': 20}
TIMEOUT = 60


def cases(rng, tier):
    n = 120 if tier == 'quick' else 2600
    out = []
    for i in range(n):
        kinds = bg.SMOOTH + list(FEATURES) if rng.random() < 0.85 else list(FEATURES)
        N = (58, 75) if rng.random() < 0.7 else (5, 40)
        s = bg.random_scenario(rng, kinds=kinds, K=int(rng.integers(-1, 2)), N=N, normalise=bool(rng.random() < .8))
        s.update(kind='run', track_time=bool(rng.random() < .6), track_eta=bool(rng.random() < .6), eta_i=float(np.round(rng.normal(), 4)),
                 mode=['end', 'end', 'past', 'teval', 'default'][int(rng.integers(5))], atol=1e-15, seed=int(rng.integers(2**31)))
        out.append(s)
    return out


def watched(base, log):
    class Watched(base):
        def __call__(self, x, y):
            dy = super().__call__(x, y)
            log.append((float(x), np.array(y, dtype=float), np.array(dy, dtype=float)))
            return dy
    return Watched


def run_case(case, mon):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.events import InflationEvent, UntilNEvent, CollapseEvent
    rng = np.random.default_rng(case['seed'])
    P, K = Pot.from_spec(case['pot']), case['K']
    T = case['clock'] == 't'
    mon.tag(family=P.kind, K=K, clock=case['clock'])
    log = []
    kw = {'track_eta': case['track_eta']}
    if not T:
        kw['track_time'] = case['track_time']
    eq = bg.make_equations(case, cls=watched(InflationEquationsT if T else InflationEquationsN, log), **kw)
    ickw = {'eta_i': case['eta_i']} if case['track_eta'] else {}
    mode = case['mode']
    if mode == 'past' and (P.kind == 'Tmodel' and P.kw['p'] % 1 or P.kind == 'RadionGauge' and P.kw['p'] % 2):
        mode = 'end'                         # the potential is not defined beyond its minimum
    past = (1.0 if T else 0.1) if mode == 'past' else 0.0
    ref = flow_ref(case, past)
    if not ref.ok or ref.N_end is None:
        mon.obs('no_end_in_reference')
        return
    ic = bg.make_ic(case, eq, **ickw)
    over = {}
    ev = None
    if mode == 'past':
        ev = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=False), CollapseEvent(eq),
              UntilNEvent(eq, ref.N_end + past)]
    if mode == 'default':
        from primpy.solver import solve
        b = solve(ic, events=bg.std_events(eq))
        acc = 1e-8
    else:
        if mode == 'teval':
            if T:
                te = np.sort(rng.uniform(case['t_i'], ref.at(ref.N_end - 0.5)['t'][0], 40))
            else:
                te = np.sort(rng.uniform(ref.N0, ref.N_end - 0.2, 40))
            over['t_eval'] = te
        b = bg.run(case, eq=eq, ic=ic, events=ev, **over)
        acc = 1e-11
    lsoda = case['method'] == 'LSODA' and mode != 'default'
    mon.seen(P.kind, K, case['clock'], case['ic'], case['method'], mode, case['track_eta'], case['track_time'])
    mon.obs('runs')
    mon.obs('rhs_calls', len(log))
    mon.obs('samples', b.x.size)
    if T and np.max(np.abs(b.dphidt)) < 1e3 * (1e-12 if mode == 'default' else 1e-15):
        mon.obs('below_absolute_tolerance')     # absolute tolerance of the integrator dominates: nothing to judge

    # (a) online log of derivative evaluations
    judge_rhs(mon, log, eq, P, K, T, rng)

    # (b) trajectory
    N = b._N
    mon.check('grid', np.all(np.isfinite(b.x)) and np.all(np.diff(b.x) > 0) and np.all(np.diff(N) >= 0), x=b.x)
    if mode == 'teval':
        mon.close('sampled where asked', b.x, te, rtol=0, atol=0)
    hi = min(ref.N1, N[-1])
    m = (N <= hi + 1e-9) & (N >= ref.N0 - 1e-12)
    r = ref.at(np.clip(N[m], ref.N0, ref.N1))
    # accuracy: steps accumulate local errors of size rtol; e-folds and field are of order one to a hundred
    tol = (5e-6 if lsoda else 3e-7) if mode != 'default' else 2e-6
    # time clock: absolute tolerance acts on dphidt which may be tiny
    floor = 0.0
    if T:
        at = 1e-12 if mode == 'default' else 1e-15
        floor = 300 * at / np.min(np.abs(r['H']))
    name = 'trajectory' if mode != 'default' else 'default accuracy'
    info = dict(pot=repr(P), method=case['method'], mode=mode)
    sp = np.max(np.abs(r['phi']))
    # how strongly this trajectory amplifies a small error made at the start
    near = flow_ref(case, past, 1 + 1e-8)
    if not near.ok or near.N_end is None:
        return
    Ns = np.linspace(ref.N0, min(ref.N1, near.N1), 400)
    an, ar = near.at(Ns), ref.at(Ns)
    amp = np.maximum(np.abs(an['phi'] - ar['phi']) / (1e-8 * abs(case['phi_i'])), np.abs(an['H'] / ar['H'] - 1) / 1e-8)
    amp = np.interp(N[m], Ns, np.maximum.accumulate(amp))
    tp = tol * (1 + 0.03 * amp) + floor * 30 * (1 + amp)
    mon.obs('amplification>10', np.sum(amp > 10))
    om = bg.initial_state(case)['Omega_Ki']
    # almost static closed start: the e-fold variable itself is nearly singular there
    ok = (tp < 1e-3) & (amp < (1500 if om > -0.3 else -1 if not T else 60))
    if ok.any():
        q = r['dphidt']
        u0 = np.max(np.abs(q[-20:]))
        one = np.abs(case['phi_i']) if past else 0.0
        mon.close(name, b.phi[m][ok], r['phi'][ok], rtol=tp[ok], atol=tp[ok] * max(0.2, one), what='phi', **info)
        mon.close(name, bg.dphidt_of(b)[m][ok], q[ok], rtol=0, atol=(5 * tp * (np.abs(q) + 0.05 * u0))[ok], what='dphi/dt', **info)
        mon.close(name, b.H[m][ok], r['H'][ok], rtol=5 * tp[ok], what='H', **info)
        # (c) time variables against own quadrature along the reference
        if hasattr(b, 't'):
            mon.close('cosmic time', b.t[m][ok], r['t'][ok], rtol=5 * tp[ok], atol=5 * tp[ok] / r['H'][0], **info)
        if case['track_eta']:
            eta_tol = 5 * tp * ref.eu + 1e-13 * abs(case['eta_i']) + 50 * (1e-12 if mode == 'default' else 1e-15)
            # the integrator controls eta relative to its own size
            eta_tol = eta_tol + 1e3 * acc * (abs(case['eta_i']) + np.max(np.abs(r['eta'])))
            mon.close('conformal time', b.eta[m][ok], r['eta'][ok], rtol=0, atol=eta_tol[ok], **info)

    # (d) derived arrays recomputed from the rows
    V, dV, d2V = [np.array([float(P.jet(p, 3).deriv(n)) for p in b.phi]) for n in (0, 1, 2)]
    k = K * np.exp(-2 * N)
    if T:
        H2 = (b.dphidt**2 / 2 + V) / 3 - k
        kin = b.dphidt**2
        hcond = ((b.dphidt**2 / 2 + V) / 3 + np.abs(k)) / np.abs(H2)
    else:
        den = (6 - b.dphidN**2)
        H2 = (V / 3 - k) / (den / 6)
        kin = b.dphidN**2 * H2
        hcond = (V / 3 + np.abs(k)) / np.abs(V / 3 - k) + 6 / np.abs(den)
    rt = 1e-10 * (1 + hcond) + (1e-6 if P.kind == 'Tmodel' else 0) * 1e-2
    H = np.sqrt(H2)
    mon.close('derived arrays', b.H, H, rtol=rt, what='H')
    w = (kin / 2 - V) / (kin / 2 + V)
    mon.close('derived arrays', b.w, w, rtol=rt, atol=rt, what='w')
    mon.close('derived arrays', b._logaH, N + np.log(H), rtol=0, atol=rt + 1e-12 * np.abs(N), what='logaH')
    mon.close('derived arrays', b.Omega_K, -K / (np.exp(N) * H)**2, rtol=4 * rt, atol=0, what='Omega_K')
    # Friedmann closure of what is reported
    rho = (bg.dphidt_of(b)**2 / 2 + V) / 3
    mon.close('closure', rho / b.H**2 + b.Omega_K, np.ones_like(H), rtol=0, atol=1e-9 * (1 + hcond), what='sum of density parameters')
    # rows and names
    rows = {'phi': b.phi, 'dphidt' if T else 'dphidN': b.dphidt if T else b.dphidN}
    if T:
        rows['_N'] = b._N
    for name_, arr in rows.items():
        mon.check('rows', np.array_equal(getattr(eq, name_)(b.x, b.y), arr), name=name_)
    mon.check('rows', np.array_equal(b.x, b.t if T else b._N))
    # accessors on 2-D states, single states
    for sl in (slice(None), int(rng.integers(b.x.size))):
        x, y = b.x[sl], b.y[:, sl]
        with np.errstate(all='ignore'):
            mon.close('accessors', eq.H(x, y), H[sl], rtol=rt[sl], what='H')
            mon.close('accessors', eq.H2(x, y), H2[sl], rtol=2 * rt[sl], what='H2')
            mon.close('accessors', eq.w(x, y), w[sl], rtol=rt[sl], atol=rt[sl], what='w')
            mon.close('accessors', eq.inflating(x, y), (V - kin)[sl], rtol=0, atol=(rt * (V + kin))[sl], what='inflating')
            mon.close('accessors', eq.V(x, y), V[sl], rtol=1e-8, atol=1e-12 * np.max(np.abs(V)), what='V')
            s1 = 1e-8 * (np.abs(dV) + V * 1e-3)[sl]
            mon.close('accessors', eq.dVdphi(x, y), dV[sl], rtol=1e-6, atol=s1, what='dVdphi')
            mon.close('accessors', eq.d2Vdphi2(x, y), d2V[sl], rtol=1e-6, atol=1e-6 * (np.abs(d2V) + V * 1e-4)[sl], what='d2Vdphi2')
    mon.check('belongs', b.K == K and b.potential is eq.potential)
    mon.sample(pot=repr(P), K=K, clock=case['clock'], samples=b.x.size, rhs_calls=len(log), N_end=ref.N_end, phi=b.phi)


def flow_ref(case, past, f=1.0):
    d = bg.initial_state(case)
    return flow.Ref(Pot.from_spec(case['pot']), case['K'], d['phi'] * f, d['dphidt'], d['N'], t=case['t_i'], eta=case['eta_i'], rtol=1e-12,
                    past_end=past + 0.05)


def judge_rhs(mon, log, eq, P, K, T, rng):
    take = range(len(log)) if len(log) <= 700 else sorted(rng.choice(len(log), 700, replace=False))
    idx = eq.idx
    got, want, tol = [], [], []
    for i in take:
        x, y, dy = log[i]
        phi = y[idx['phi']]
        try:
            V, dV = P.VdV(phi)
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if isinstance(V, complex) or isinstance(dV, complex):     # trial step beyond the domain of a fractional power
            continue
        N = y[idx['_N']] if T else x
        if not (abs(N) < 300 and math.isfinite(V)):
            continue
        k = K * math.exp(-2 * N)
        # relative accuracy with which the potential formulas are trusted near cancellations
        eV = 1e-9 * (abs(dV) + abs(V) * 1e-3)
        if T:
            u = y[idx['dphidt']]
            H2 = (u * u / 2 + V) / 3 - k
            if H2 <= 1e-6 * (u * u / 6 + V / 3):
                continue
            H = math.sqrt(H2)
            cond = ((u * u / 2 + V) / 3 + abs(k)) / H2
            items = [('phi', u, 0), ('dphidt', -3 * H * u - dV, 1e-9 * cond * (3 * H * abs(u)) + eV), ('_N', H, 1e-9 * cond * H)]
            if 'eta' in idx:
                items.append(('eta', math.exp(-N), 1e-12 * math.exp(-N)))
        else:
            q = y[idx['dphidN']]
            den = 1 - q * q / 6
            if den <= 1e-6 or V / 3 - k <= 1e-6 * V:
                continue
            H2 = (V / 3 - k) / den
            cond = (V / 3 + abs(k)) / (V / 3 - k) + 1 / den
            hd = -q * q / 2 + k / H2
            H = math.sqrt(H2)
            items = [('phi', q, 0), ('dphidN', -(3 + hd) * q - dV / H2, 1e-9 * cond * (abs(3 * q) + abs(hd * q) + abs(dV) / H2) + eV / H2)]
            if 't' in idx:
                items.append(('t', 1 / H, 1e-9 * cond / H))
            if 'eta' in idx:
                items.append(('eta', math.exp(-N) / H, 1e-9 * cond * math.exp(-N) / H))
        mon.check('rhs shape', len(items) == dy.size == len(idx), idx=idx, n=dy.size)
        for nm, wv, t in items:
            got.append(dy[idx[nm]])
            want.append(wv)
            tol.append(t)
    mon.close('rhs', np.array(got), np.array(want), rtol=1e-13, atol=np.array(tol), pot=repr(P))
