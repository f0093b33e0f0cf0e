"""C07: recorded events against the crossings of an independent reference solution."""
import math
import warnings
import numpy as np
from scipy import optimize
from .. import bg, flow
from ..pots import Pot, FEATURES

PROPERTY = 'C07'
RULE = ('random potential, curvature and physical start (slow roll, onset of inflation, kinetic dominated, rolling uphill), both time variables, a random shuffled list of '
        'events of every kind (random direction, terminal flag and threshold); the recorded event log of the real run is joined with all crossings of the same condition on '
        'a dense independent reference solution. Non-trivial = distinct (event kind, direction, terminal, time variable, number of crossings, part of the run).')
REQUIRED = {'genuine': 200, 'complete': 200, 'state': 200, 'stops': 40, 'keys': 60}
TIMEOUT = 100
POST = ('Quadratic', 'Quartic', 'Natural', 'DoubleWell2', 'DoubleWell4', 'Starobinsky')


def cases(rng, tier):
    n = 96 if tier == 'quick' else 2000
    out = []
    for i in range(n):
        K = int(rng.integers(-1, 2))
        post = rng.random() < .5
        kinds = list(POST) if post else bg.SMOOTH + list(FEATURES)
        s = bg.random_scenario(rng, kinds=kinds, K=K, N=(6, 40), clock=['t', 'N'][i % 2], ic='IS' if K or rng.random() < .5 else 'SR', kd_N=3)
        s.update(kind='events', state=['ic', 'ic', 'uphill', 'kinetic', 'kinetic'][int(rng.integers(5))], post=bool(post), seed=int(rng.integers(2**31)))
        if s['state'] == 'ic' or s['method'] != 'LSODA':
            pass
        if s['method'] == 'LSODA':
            s['method'] = 'DOP853'
        out.append(s)
    return out


def run_case(case, mon):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.solver import solve
    import primpy.events as E
    rng = np.random.default_rng(case['seed'])
    P, K, clock = Pot.from_spec(case['pot']), case['K'], case['clock']
    d = bg.initial_state(case)
    phi, u, N = d['phi'], d['dphidt'], d['N']
    if case['state'] == 'uphill':
        u = abs(u) * rng.uniform(0.01, 1)
    elif case['state'] == 'kinetic':
        u = u * rng.uniform(1.1, 5)
    H2 = (u * u / 2 + P.VdV(phi)[0]) / 3 - K * math.exp(-2 * N)
    if H2 <= 0:
        return
    H = math.sqrt(H2)
    t = case['t_i']
    past = (0.4 if clock == 'N' else 2.0) if case['post'] else 0.0
    ref = flow.Ref(P, K, phi, u, N, t=t, past_end=past)
    near = flow.Ref(P, K, phi * (1 + 1e-8), u, N, t=t)
    if not (ref.ok and near.ok and ref.N_end and near.N_end):
        mon.obs('no end of inflation')
        return
    amp = 1 + abs(near.N_end - ref.N_end) / 1e-8
    if amp > 1000 or K > 0 and math.exp(-2 * N) / H2 > 0.5:
        mon.obs('ill_conditioned')
        return
    mon.tag(family=P.kind, K=K, clock=clock)
    if clock == 't':
        eq = InflationEquationsT(K=K, potential=P.make())
    else:
        eq = InflationEquationsN(K=K, potential=P.make(), track_time=True)
    N_last = ref.N_end + (past - 0.05 if past else -0.01 * rng.integers(1, 50))
    if clock == 'N' and past:
        # the e-fold equations are singular where all energy is kinetic
        h = np.linspace(ref.N_end, N_last, 400)
        rr = ref.at(h)
        bad = np.nonzero(~(rr['dphidt']**2 / 2 < 5 * rr['V']))[0]
        if bad.size:
            N_last = float(h[max(bad[0] - 1, 0)])
    # dense reference
    g = np.unique(np.concatenate([np.linspace(N, min(N_last, ref.N_end), 3000), np.linspace(min(N_last, ref.N_end), N_last, 1500)]))
    r = ref.at(g)
    L4 = P.Lambda**4

    def cond(ev, q):
        if ev['kind'] == 'UntilN':
            return q['N'] - ev['value']
        if ev['kind'] == 'UntilT':
            return (q['t'] - ev['value']) * H
        if ev['kind'] == 'Inflation':
            return (q['V'] - q['dphidt']**2 - ev['value']) / L4
        if ev['kind'] == 'AfterInflationEnd':
            return (q['dphidt']**2 / 2 - q['V']) / (q['dphidt']**2 / 2 + q['V']) - ev['value']
        if ev['kind'] == 'Phi0':
            return q['phi'] - ev['value']
        if ev['kind'] == 'ModeExit':
            return np.log(q['H']) + q['N'] - math.log(ev['value'])
        if ev['kind'] == 'Collapse':
            return q['H']**2 / H2 - ev['value'] / H2
    evs = []
    Nr = float(rng.uniform(N, N_last))
    at = lambda x: {k: float(v[0]) for k, v in ref.at(x).items()}
    menu = ['Inflation+', 'Inflation-', 'Inflation0', 'Inflationv', 'UntilT', 'After', 'Phi', 'Phi2', 'Mode', 'Mode2', 'Mode3', 'Collapse']
    for m in rng.permutation(menu)[:int(rng.integers(3, 9))]:
        q = at(float(rng.uniform(N, N_last)))
        dr, term = int(rng.integers(-1, 2)), bool(rng.random() < .12)
        if m.startswith('Inflation'):
            dr = {'+': 1, '-': -1, '0': 0, 'v': int(rng.integers(-1, 2))}[m[-1]]
            e = dict(kind='Inflation', direction=dr, terminal=term, value=(q['V'] - q['dphidt']**2) if m[-1] == 'v' else 0)
            if any(o['kind'] == 'Inflation' and o['direction'] == dr and o['terminal'] == term for o in evs):
                continue
        elif m == 'UntilT':
            e = dict(kind='UntilT', direction=dr, terminal=term, value=q['t'])
        elif m == 'After':
            e = dict(kind='AfterInflationEnd', direction=dr, terminal=term, value=float(rng.choice([0.0, -1 / 3, 0.5, -0.9])))
        elif m.startswith('Phi'):
            e = dict(kind='Phi0', direction=dr, terminal=term, value=0 if m == 'Phi2' and past else q['phi'])
            if any(o['kind'] == 'Phi0' and o['direction'] == dr and o['terminal'] == term for o in evs):
                continue
        elif m.startswith('Mode'):
            e = dict(kind='ModeExit', direction=dr, terminal=term, value=math.exp(q['N']) * q['H'])
        else:
            e = dict(kind='Collapse', direction=int(rng.choice([0, -1])), terminal=True, value=0)
            if rng.random() < .5:     # an expansion rate to wait for
                e.update(terminal=term, value=q['H']**2)
        evs.append(e)
    evs.append(dict(kind='UntilN', direction=int(rng.choice([0, 1])), terminal=True, value=N_last))
    evs = [evs[i] for i in rng.permutation(len(evs))]
    real = []
    for e in evs:
        C = getattr(E, e['kind'] + 'Event')
        a = dict(direction=e['direction'], terminal=e['terminal'], value=e['value'])
        o = C(eq, **a)
        real.append(o)
        e['name'] = {'UntilN': 'UntilN', 'UntilT': 'UntilT', 'Collapse': 'Collapse'}.get(e['kind']) or '%s_dir%d_term%d' % (e['kind'], e['direction'], e['terminal'])
        if e['kind'] == 'ModeExit':
            e['name'] += '_%e' % e['value']
    info = dict(pot=repr(P), K=K, clock=clock, state=case['state'])
    # defaults of the event classes
    mon.check('keys', [bool(E.UntilTEvent(eq, 1.0).terminal), bool(E.UntilNEvent(eq, 1.0).terminal), bool(E.InflationEvent(eq).terminal), bool(E.AfterInflationEndEvent(eq).terminal),
                       bool(E.CollapseEvent(eq).terminal), bool(E.Phi0Event(eq).terminal), bool(E.ModeExitEvent(eq, 1.0).terminal), E.AfterInflationEndEvent(eq).direction,
                       E.InflationEvent(eq).direction] == [True, True, False, True, True, True, True, 1, 0], what='defaults')
    ic = bg.state_ic(eq, phi, u, N, H, t=t)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        b = solve(ic, events=real, method=case['method'], rtol=1e-11, atol=1e-17 if clock == 't' else 1e-13)
    names = [e['name'] for e in evs]
    mon.check('keys', list(b.x_events) == names and list(b._N_events) == names and list(b.phi_events) == names and list(b.y_events) == names, got=list(b.x_events), want=names)
    # all crossings on the reference
    tolN = 1e-7 * (10 + amp)
    cross = []
    for e in evs:
        c = cond(e, r)
        out = []
        if np.all(np.isfinite(c)):
            for i in np.nonzero(np.sign(c[1:]) * np.sign(c[:-1]) < 0)[0]:
                up = c[i + 1] > c[i]
                if e['direction'] and (e['direction'] > 0) != up:
                    continue
                f = lambda x: float(np.ravel(cond(e, ref.at(x)))[0])
                try:
                    x = optimize.brentq(f, g[i], g[i + 1], xtol=1e-12)
                except ValueError:
                    x = 0.5 * (g[i] + g[i + 1])
                out.append((x, up))
            if e['kind'] == 'UntilN' and not out:
                out.append((N_last, True))
        e['grazing'] = grazing(c)
        cross.append(out)
    stops = [x for e, o in zip(evs, cross) for x, _ in o if e['terminal'] and x > N + 10 * tolN]
    # a terminal condition that is met right at the start cannot be located
    fuzzy0 = any(e['terminal'] and (any(x <= N + 1e-4 for x, _ in o) or abs(float(np.ravel(cond(e, at2(r, 0)))[0])) < 1e-6) for e, o in zip(evs, cross))
    if fuzzy0:
        mon.obs('fuzzy start')
        return
    N_stop = min(stops)
    mon.check('stops', b.status == 1 and b.success, status=b.status, message=b.message, **info)
    mon.close('stops', b._N[-1], N_stop, rtol=0, atol=10 * tolN, what='stops at the first terminal event', events=[e for e in evs if e['terminal']], **info)
    if abs(b._N[-1] - N_stop) > 10 * tolN:
        return
    who = [e for e, o in zip(evs, cross) if e['terminal'] and any(abs(x - N_stop) < 1e-9 for x, _ in o)]
    if len(who) == 1:
        x = np.asarray(b._N_events[who[0]['name']])
        mon.check('stops', x.size >= 1 and abs(x[-1] - b._N[-1]) < 1e-9 * (1 + abs(N_stop)), what='last sample is the event', event=who[0], **info)
    steps = b._N
    for e, o in zip(evs, cross):
        got = np.asarray(b._N_events[e['name']])
        key = dict(event=e, **info)
        mon.obs('recorded', got.size)
        # genuine: the recorded state satisfies the condition, lies on the solution, direction is right
        for j in range(got.size):
            y = np.asarray(b.y_events[e['name']])[j]
            q = state(eq, y, np.asarray(b.x_events[e['name']])[j], P, K, clock)
            scale = 1.0
            if e['kind'] in ('UntilN', 'ModeExit'):
                scale = 10.0
            elif e['kind'] == 'UntilT':
                scale = max(1.0, abs(e['value'] * H))
            elif e['kind'] == 'Phi0':
                scale = max(1, abs(e['value']))
            elif e['kind'] == 'Inflation':
                scale = q['V'] / L4 + abs(e['value']) / L4 + 1e-6
            cv = float(np.ravel(cond(e, q))[0])
            mon.close('genuine', cv, 0.0, atol=1e-8 * scale, N=got[j], **key)
            if N + 1e-4 < got[j]:
                hit = [(x, up) for x, up in o if abs(x - got[j]) < 30 * tolN]
                mon.check('genuine', hit or e['grazing'], what='no such crossing of the solution in that direction', N=got[j], crossings=[x for x, _ in o][:4], **key)
            qr = at(float(min(got[j], ref.N1)))
            st = 1e-6 * (10 + amp)
            mon.close('state', [q['phi'], q['dphidt'], q['H']], [qr['phi'], qr['dphidt'], qr['H']], rtol=st, atol=np.array([st * 1e-1, st * 0.3 * qr['H'], 0]) * (1 if got[j] < ref.N_end else 10), N=got[j], **key)
            mon.close('state', np.ravel(b.phi_events[e['name']])[j], q['phi'], rtol=0, **key)
            mon.close('state', q['t'], qr['t'], rtol=st, atol=st / H, what='t', N=got[j], **key)
        # complete and not repeated
        inside = [x for x, _ in o if N + 1e-4 < x < N_stop - 1e-4 * (0 if e in who else 1) - (0 if e in who else 30 * tolN)] if e not in who else [x for x, _ in o if N + 1e-4 < x <= N_stop + 1e-9]
        seen = [x for x in got if x > N + 1e-4 and (e in who or x < N_stop - 1e-4 - 30 * tolN)]
        # two crossings between neighbouring samples cannot be resolved by any sampled detector
        allx = np.sort([x for x, _ in crossings_any(e, cond(e, r), g)])
        k = np.searchsorted(steps, allx)
        if len(set(k.tolist())) < len(k) or e['grazing']:
            mon.obs('unresolvable')
            continue
        mon.check('complete', len(inside) == len(seen), recorded=seen[:5], crossings=inside[:5], **key)
        mon.seen(e['kind'], e['direction'], e['terminal'], clock, min(len(inside), 3), case['state'])
    for e, o in zip(evs, cross):
        if not e['terminal']:
            xs = np.asarray(b._N_events[e['name']])
            if xs.size and xs[0] < N_stop - 1e-3:
                mon.check('stops', b._N[-1] > xs[0], what='non-terminal event does not stop', event=e)
    mon.obs('runs')
    mon.sample(**info, events=[e['name'] for e in evs], N_events={k: list(np.asarray(v)[:3]) for k, v in b._N_events.items()})


def at2(r, i):
    return {k: np.asarray(v)[i:i + 1] for k, v in r.items()}


def crossings_any(e, c, g):
    i = np.nonzero(np.sign(c[1:]) * np.sign(c[:-1]) < 0)[0]
    return [(0.5 * (g[j] + g[j + 1]), None) for j in i]


def grazing(c):
    """the condition nearly touches zero without a clean crossing somewhere."""
    if not np.all(np.isfinite(c)):
        return True
    d = np.diff(c)
    t = np.nonzero(d[1:] * d[:-1] <= 0)[0] + 1
    s = np.max(np.abs(c)) or 1
    return bool(np.any(np.abs(c[t]) < 1e-4 * s))


def state(eq, y, x, P, K, clock):
    phi = y[eq.idx['phi']]
    V, dV = P.VdV(phi)
    if clock == 't':
        N, u, t = y[eq.idx['_N']], y[eq.idx['dphidt']], x
        H = math.sqrt(max((u * u / 2 + V) / 3 - K * math.exp(-2 * N), 0))
    else:
        N, t = x, y[eq.idx['t']]
        qn = y[eq.idx['dphidN']]
        H = math.sqrt(max((V / 3 - K * math.exp(-2 * N)) / (1 - qn * qn / 6), 0))
        u = qn * H
    return dict(phi=phi, dphidt=u, N=N, H=H, V=V, t=t)
