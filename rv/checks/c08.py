"""C08: start, end, duration and mask of inflation against an independent reference; warnings when they are unknown."""
import math
import warnings
import numpy as np
from scipy import optimize
from .. import bg, flow
from ..pots import Pot, FEATURES

PROPERTY = 'C08'
RULE = ('random potential, curvature and physical start (slow roll, onset of inflation, kinetic dominated, rolling uphill, closed and collapsing), both time variables; the run is complete, '
        'truncated before or during inflation, or continued past its end, with complete, partial, duplicated or missing inflation events; the reported quantities and the captured '
        'warnings are compared with all transitions of a dense independent reference. Non-trivial = distinct (start, truncation, events tracked, time variable, curvature sign).')
REQUIRED = {'start': 150, 'end': 150, 'mask': 80, 'unknown': 60, 'warnings': 150, 'silent': 40}
TIMEOUT = 100
POST = ('Quadratic', 'Quartic', 'Natural', 'DoubleWell2', 'DoubleWell4', 'Starobinsky')


def cases(rng, tier):
    n = 150 if tier == 'quick' else 3000
    out = []
    for i in range(n):
        K = int(rng.integers(-1, 2))
        post = rng.random() < .4
        s = bg.random_scenario(rng, kinds=list(POST) if post else bg.SMOOTH + list(FEATURES), K=K, N=(5, 40), clock=['t', 'N'][i % 2],
                               ic='IS' if K or rng.random() < .5 else 'SR', kd_N=3)
        s.update(kind='run', state=['ic', 'onset', 'uphill', 'kinetic', 'kinetic', 'kinetic'][int(rng.integers(6))], post=bool(post), seed=int(rng.integers(2**31)),
                 cut=['none', 'none', 'inflating', 'before'][int(rng.integers(4))])
        if s['method'] == 'LSODA':
            s['method'] = 'DOP853'
        out.append(s)
    for i in range(n // 10):
        out.append(dict(kind='collapse', seed=int(rng.integers(2**31))))
    return out


def run_case(case, mon):
    (collapse if case['kind'] == 'collapse' else normal)(case, mon)


def capture(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = f()
    from primpy.exceptionhandling import PrimpyWarning
    return r, [x for x in w if issubclass(x.category, PrimpyWarning)]


def normal(case, mon):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.solver import solve
    import primpy.events as E
    import primpy.exceptionhandling as X
    rng = np.random.default_rng(case['seed'])
    P, K, clock = Pot.from_spec(case['pot']), case['K'], case['clock']
    d = bg.initial_state(case)
    phi, u, N, t = d['phi'], d['dphidt'], d['N'], case['t_i']
    if case['state'] == 'uphill':
        u = abs(u) * rng.uniform(0.01, 1)
    elif case['state'] == 'kinetic':
        u = u * rng.uniform(1.3, 6) * (1 if case['ic'] == 'IS' else 8)
    elif case['state'] == 'onset':
        u = -math.sqrt(P.VdV(phi)[0])
    H2 = (u * u / 2 + P.VdV(phi)[0]) / 3 - K * math.exp(-2 * N)
    if H2 <= 0:
        return
    H = math.sqrt(H2)
    past = (0.4 if clock == 'N' else 1.5) if case['post'] else 0.0
    ref = flow.Ref(P, K, phi, u, N, t=t, past_end=past)
    near = flow.Ref(P, K, phi * (1 + 1e-8), u, N, t=t)
    if not (ref.ok and near.ok and ref.N_end and near.N_end):
        mon.obs('no end of inflation')
        return
    amp = 1 + abs(near.N_end - ref.N_end) / 1e-8
    if amp > 1000 or K > 0 and math.exp(-2 * N) / H2 > 0.5:
        mon.obs('ill_conditioned')
        return
    L4 = P.Lambda**4
    tol = 1e-7 * (10 + amp)
    N_last = ref.N_end + past - 0.05 if past else ref.N_end + 1e-3
    if clock == 'N' and past:
        h = np.linspace(ref.N_end, N_last, 400)
        rr = ref.at(h)
        bad = np.nonzero(~(rr['dphidt']**2 / 2 < 5 * rr['V']))[0]
        if bad.size:
            N_last = float(h[max(bad[0] - 1, 0)])
        if N_last < ref.N_end + 5e-3:
            mon.obs('no room past the end')
            return
    g0 = (P.VdV(phi)[0] - u * u) / L4
    threshold = abs(g0) < 1e-9
    # where the run is stopped
    first_up = ref.N_up if ref.N_up is not None and g0 < 0 else None
    cut = case['cut']
    N_stop = N_last
    if cut == 'inflating':
        lo = first_up if first_up is not None else N
        if ref.N_end - lo < 0.5:
            return
        N_stop = float(rng.uniform(lo + 0.05, ref.N_end - 0.05))
    elif cut == 'before':
        if first_up is None or first_up - N < 0.02 or threshold:
            cut, N_stop = 'none', N_last
        else:
            N_stop = float(N + (first_up - N) * rng.uniform(0.2, 0.95))
    # transitions of the reference up to there
    g = np.unique(np.concatenate([np.linspace(N, min(N_stop, ref.N_end), 3000), np.linspace(min(N_stop, ref.N_end), min(N_stop, ref.N1), 1500)]))
    acc = lambda q: (q['V'] - q['dphidt']**2) / L4
    c = acc(ref.at(g))
    cr = []
    f = lambda x: float(np.ravel(acc(ref.at(x)))[0])
    for i in np.nonzero(np.sign(c[1:]) * np.sign(c[:-1]) < 0)[0]:
        try:
            cr.append((optimize.brentq(f, g[i], g[i + 1], xtol=1e-13), 1 if c[i + 1] > c[i] else -1))
        except ValueError:
            cr.append((.5 * (g[i] + g[i + 1]), 1 if c[i + 1] > c[i] else -1))
    if N_stop > ref.N_end:
        cr = [x for x in cr if abs(x[0] - ref.N_end) > 1e-6] + [(ref.N_end, -1)]
        cr.sort()
    if not past and cut == 'none':
        cr = [x for x in cr if x[1] > 0] + [(ref.N_end, -1)]
    ups = [x for x, s in cr if s > 0]
    downs = [x for x, s in cr if s < 0]
    # tracked events
    track = {'+': ['no', 'n', 'n', 't', 'both'][int(rng.choice(5, p=[.2, .35, .25, .1, .1]))], '-': ['no', 'n', 't', 'both'][int(rng.choice(4, p=[.15, .35, .4, .1]))]}
    if past or cut != 'none':
        pass
    elif track['-'] == 'n' or track['-'] == 'no':
        N_stop = ref.N_end + 1e-3 if P.kind in POST else ref.N_end - 1e-3
        if N_stop < ref.N_end:
            downs = []
    if track['+'] in ('t', 'both') and ups and ups[0] < N_stop:
        N_stop = ups[0]
        downs = [x for x in downs if x < N_stop]
    if track['-'] in ('t', 'both') and downs:
        N_stop = min(N_stop, downs[0])
    for verbose in (True, False):
        if clock == 't':
            eq = InflationEquationsT(K=K, potential=P.make(), verbose=verbose)
        else:
            eq = InflationEquationsN(K=K, potential=P.make(), track_time=True, verbose=verbose)
        evs = [E.UntilNEvent(eq, N_stop + (1e-2 if N_stop in downs or N_stop in ups else 0))]
        for s in '+-':
            if track[s] in ('n', 'both'):
                evs.append(E.InflationEvent(eq, int(s + '1'), terminal=False))
            if track[s] in ('t', 'both'):
                evs.append(E.InflationEvent(eq, int(s + '1'), terminal=True))
        if rng.random() < .4:
            evs.append(E.InflationEvent(eq, 0))
        if rng.random() < .4:
            evs.append(E.CollapseEvent(eq))
        if rng.random() < .4:
            evs.append(E.ModeExitEvent(eq, math.exp(N) * H * 3, terminal=False))
        evs = [evs[i] for i in rng.permutation(len(evs))]
        ic = bg.state_ic(eq, phi, u, N, H, t=t)
        b, w = capture(lambda: solve(ic, events=evs, method=case['method'], rtol=1e-11, atol=1e-17 if clock == 't' else 1e-13))
        info = dict(pot=repr(P), K=K, clock=clock, state=case['state'], cut=cut, track=track, events=[e.name for e in evs])
        if abs(b._N[-1] - N_stop) > 20 * tol and abs(b._N[-1] - N_stop) < 0.011:
            mon.obs('stop not resolved')
        judge(mon, b, w, verbose, P, K, N, H, g0, threshold, ups, downs, track, ref, tol, L4, info, X)
        mon.seen(case['state'], cut, track['+'], track['-'], clock, K, past > 0)
    mon.sample(**info, N_beg=b._N_beg, N_end=b._N_end, warnings=[str(x.message)[:60] for x in w])


def judge(mon, b, w, verbose, P, K, N, H, g0, threshold, ups, downs, track, ref, tol, L4, info, X):
    last = float(b._N[-1])
    ups = [x for x in ups if x <= last + 20 * tol]
    downs = [x for x in downs if x <= last + 20 * tol]
    at = lambda x: {k: float(v[0]) for k, v in ref.at(min(x, ref.N1)).items()}
    # two transitions within one step of the integrator cannot be seen by any sampled detector
    xs = np.sort(np.array(ups + downs))
    k = np.searchsorted(b._N, xs)
    unresolved = len(set(k.tolist())) < len(k)
    if threshold and track['+'] == 'no':
        known_beg, beg = None, N
    elif g0 >= 0 or threshold:
        known_beg, beg = True, N
    elif ups and track['+'] != 'no':
        known_beg, beg = (None if unresolved else True), ups[0]
    elif ups and unresolved:
        known_beg, beg = None, ups[0]
    else:
        known_beg, beg = False, math.nan
    if downs and track['-'] != 'no':
        known_end, end = (None if unresolved else True), downs[0]
    else:
        known_end, end = (None if unresolved else False), math.nan
    if threshold and downs and downs[0] < N + 1e-3:
        known_end = None
    if known_beg:
        q = at(beg)
        mon.close('start', b._N_beg, beg, rtol=0, atol=10 * tol, what='_N_beg', **info)
        st = 1e-6 * (10 + 1e7 * tol)
        mon.close('start', [b.H_beg, b._logaH_beg], [q['H'], beg + math.log(q['H'])], rtol=st, atol=[0, st], what='H_beg, logaH_beg', **info)
    elif known_beg is False:
        mon.check('unknown', np.isnan(b._N_beg) and np.isnan(b.H_beg) and np.isnan(b._logaH_beg) and np.isnan(b.N_tot), what='start', N_beg=b._N_beg, H_beg=b.H_beg,
                  logaH_beg=b._logaH_beg, N_tot=b.N_tot, **info)
    if known_end:
        q = at(end)
        st = 1e-6 * (10 + 1e7 * tol)
        mon.close('end', b._N_end, end, rtol=0, atol=10 * tol, what='_N_end', **info)
        mon.close('end', [b.phi_end, b.H_end, b.V_end / L4, b._logaH_end], [q['phi'], q['H'], q['V'] / L4, end + math.log(q['H'])], rtol=st, atol=[st, 0, st * 1e-2, st], what='end state', **info)
    elif known_end is False:
        mon.check('unknown', np.isnan(b._N_end) and np.isnan(b.H_end) and np.isnan(b.V_end) and np.isnan(b.phi_end) and np.isnan(b._logaH_end) and np.isnan(b.N_tot), what='end',
                  N_end=b._N_end, H_end=b.H_end, V_end=b.V_end, phi_end=b.phi_end, N_tot=b.N_tot, **info)
    if known_beg and known_end:
        mon.close('end', b.N_tot, end - beg, rtol=0, atol=20 * tol, what='N_tot', **info)
        far = (np.abs(b._N - beg) > 20 * tol) & (np.abs(b._N - end) > 20 * tol)
        want = (b._N > beg) & (b._N < end)
        mon.check('mask', np.shape(b.inflation_mask) == np.shape(b._N) and bool(np.all(np.asarray(b.inflation_mask)[far] == want[far])), what='inflation_mask', got=int(np.sum(b.inflation_mask)),
                  want=int(want.sum()), **info)
    # consistency of whatever is reported
    if np.isfinite(b._N_end) and np.isfinite(b._N_beg):
        mon.close('mask', b.N_tot, b._N_end - b._N_beg, rtol=1e-12, what='N_tot')
    mon.check('mask', np.size(b._N) == np.size(b.phi) == np.size(b.H))
    # warnings
    cats = [x.category for x in w]
    nb, ne = cats.count(X.InflationStartWarning), cats.count(X.InflationEndWarning)
    if not verbose:
        mon.check('silent', not w, warnings=[str(x.message)[:120] for x in w], **info)
        return
    mon.check('warnings', nb == (1 if np.isnan(b._N_beg) else 0), what='start warning exactly when the start is unknown', n=nb, N_beg=b._N_beg, **info)
    mon.check('warnings', ne == (1 if np.isnan(b._N_end) else 0), what='end warning exactly when the end is unknown', n=ne, N_end=b._N_end, **info)
    mon.check('warnings', X.CollapseWarning not in cats, what='no collapse', **info)
    for x in w:
        m = str(x.message).lower()
        if x.category is X.InflationStartWarning:
            mon.check('warnings', ('not tracking' in m) == (track['+'] == 'no'), what='reason of the start warning', message=m[:200], **info)
            mon.check('warnings', 'start' in m, message=m[:100])
        if x.category is X.InflationEndWarning:
            mon.check('warnings', ('not tracking' in m) == (track['-'] == 'no'), what='reason of the end warning', message=m[:200], **info)
            if track['-'] != 'no':
                wl = float(b.w[-1])
                if abs(wl + 1 / 3) > 1e-6:
                    mon.check('warnings', ('still inflating' in m) == (wl < -1 / 3), what='still inflating', w=wl, message=m[:200], **info)
            mon.check('warnings', 'end' in m, message=m[:100])
    mon.obs('runs')


def collapse(case, mon):
    """closed universes that turn around before inflation sets in."""
    from primpy.time.inflation import InflationEquationsT
    from primpy.solver import solve
    import primpy.events as E
    import primpy.exceptionhandling as X
    rng = np.random.default_rng(case['seed'])
    for _ in range(40):
        P = Pot('Quadratic', float(10 ** rng.uniform(-3, -2)))
        phi = float(rng.uniform(5, 15))
        V = P.VdV(phi)[0]
        u = -math.sqrt(V) * rng.uniform(1.5, 10)
        rho = (u * u / 2 + V) / 3
        # curvature dilutes slower than kinetic energy: a small margin is not enough to reach the onset of inflation
        N = 0.5 * math.log(1 / rho) + 10 ** rng.uniform(-4, -2)
        H2 = rho - math.exp(-2 * N)
        if H2 > 0:
            break
    else:
        return
    H = math.sqrt(H2)
    for verbose in (True, False):
        eq = InflationEquationsT(K=1, potential=P.make(), verbose=verbose)
        evs = [E.InflationEvent(eq, 1), E.InflationEvent(eq, -1, terminal=True), E.CollapseEvent(eq), E.UntilNEvent(eq, N + 60)]
        evs = [evs[i] for i in rng.permutation(4)]
        ic = bg.state_ic(eq, phi, u, N, H, t=0.1 / H)
        with np.errstate(all='ignore'):
            b, w = capture(lambda: solve(ic, events=evs, method='RK45', rtol=1e-9, atol=1e-12))
        if np.size(b._N_events['Inflation_dir1_term0']) or np.size(b._N_events['Inflation_dir-1_term1']):
            mon.obs('inflated')
            return
        crashed = not np.size(b._N_events['Collapse'])
        info = dict(pot=repr(P), phi=phi, N=N, ratio=u / math.sqrt(V), recorded=not crashed)
        mon.check('unknown', np.isnan(b._N_beg) and np.isnan(b._N_end) and np.isnan(b.N_tot) and np.isnan(b.H_end) and np.isnan(b.V_end) and np.isnan(b.H_beg), what='collapsed', N_beg=b._N_beg, N_end=b._N_end, **info)
        cats = [x.category for x in w]
        if verbose:
            mon.check('warnings', cats.count(X.CollapseWarning) == (0 if crashed else 1) and cats.count(X.InflationStartWarning) == (1 if crashed else 0)
                      and cats.count(X.InflationEndWarning) == 1, what='collapse is announced', cats=[c.__name__ for c in cats], **info)
            for x in w:
                mon.check('warnings', 'not tracking' not in str(x.message).lower(), what='reason', message=str(x.message)[:150], **info)
        else:
            mon.check('silent', not w, **info)
        mon.seen('collapse', verbose, crashed)
        mon.obs('unrecorded collapses' if crashed else 'collapses')
