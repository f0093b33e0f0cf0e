"""C19: the cobaya theory components, driven through cobaya, return the spectra of the point that was asked for."""
import io
import contextlib
import logging
import math
import sys
import warnings
import numpy as np
from .. import bg, flow, modes
from ..pots import Pot, random_pot

PROPERTY = 'C19'
RULE = ('a cobaya model (real provider and cache) is built around each theory component with a random subset of its parameters sampled, fixed or left out, and evaluated at random, repeated and revisited points; the spectra that '
        'reach the likelihood are compared with own formulas, those of the slow-roll components with own integration of the modes on own background. Contradictory points are refused. '
        'Non-trivial = distinct (component, set of parameters).')
REQUIRED = {'power law': 5000, 'grid': 100, 'refused': 20, 'slow roll': 60, 'derived': 100, 'round trip': 15, 'repeat': 20, 'reheating range': 20}
TIMEOUT = 150
PIVOT = bg.K_PIVOT
FAMILIES = ['Monomial', 'Linear', 'Quadratic', 'Starobinsky', 'Natural', 'DoubleWell2', 'DoubleWell4', 'Tmodel', 'RadionGauge', 'RadionGauge2']


def cases(rng, tier):
    n = (24, 40) if tier == 'quick' else (400, 700)
    out = []
    for i in range(n[0]):
        out.append(dict(kind='parametric', component=['PowerLawPPS', 'LogOscillationPPS', 'LinOscillationPPS', 'CutoffPPS'][i % 4], seed=int(rng.integers(2**31))))
    for i in range(n[1]):
        fam = FAMILIES[i % 10]
        for _ in range(50):
            P = random_pot(rng, fam, Lambda=1.0)
            if fam == 'Monomial' and P.kw['p'] < .6 or fam == 'Tmodel' and P.kw['p'] < 1 or fam == 'RadionGauge' and P.kw['p'] < 1.5:
                continue
            if fam in ('Tmodel', 'RadionGauge', 'RadionGauge2') and P.kw['alpha'] < .3:
                continue
            x = P.phi_of_N(95.)
            if x is None or fam in ('Natural', 'DoubleWell2', 'DoubleWell4') and P.kw['phi0'] - x < .02 * P.kw['phi0'] or fam.startswith('DoubleWell') and x < .02 * P.kw['phi0']:
                continue
            break
        else:
            continue
        out.append(dict(kind='slowroll', pot=P.spec(), component=fam + 'SlowRollPPS', route=['N_star', 'n_s', 'reheating', 'N_star rho'][i // 10 % 4 if tier == 'quick' else i % 4], seed=int(rng.integers(2**31))))
    return out


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        yield
    logging.disable(logging.NOTSET)


def component(name):
    import importlib
    for m in ('powerlaw_pps', 'feature_pps', 'slowroll_pps'):
        mod = importlib.import_module('cobaya_wrapper.' + m)
        if name in vars(mod):
            return vars(mod)[name]
    raise AttributeError(name)


def model(name, sampled, fixed, derived=()):
    """cobaya model with one theory and a likelihood that records what it was given."""
    from cobaya.model import get_model
    seen = {}

    def like(_self=None, nuisance=0.):
        seen['s'] = _self.provider.get_primordial_scalar_pk()
        seen['t'] = _self.provider.get_primordial_tensor_pk()
        return 0.
    params = {k: {'prior': {'min': a, 'max': b}} for k, (a, b) in sampled.items()}
    params['nuisance'] = {'prior': {'min': -1, 'max': 1e9}}      # so that the likelihood is called even where the theory is cached
    params.update(fixed)
    params.update({k: None for k in derived})
    info = dict(params=params, theory={'pps': dict(external=component(name), stop_at_error=True)},
                likelihood={'l': dict(external=like, requires={'primordial_scalar_pk': None, 'primordial_tensor_pk': None})})
    return get_model(info), seen


RANGES = dict(A_s=(1e-10, 1e-8), n_s=(.8, 1.2), n_run=(-.05, .05), n_runrun=(-.02, .02), r=(0., .5), A_t=(1e-13, 1e-9), n_t=(-.3, .3), n_t_run=(-.05, .05),
              A_log=(-.9, .9), w_log=(.1, 60.), p_log=(0., 1.), A_lin=(-.9, .9), w_lin=(.1, 200.), p_lin=(0., 1.), k_cut=(1e-5, 1e-2), s_cut=(.5, 6.))


def own_spectra(name, p):
    ks = np.logspace(math.log10(5e-7), math.log10(50.), 801)
    L = np.log(ks / PIVOT)
    A, ns = p['A_s'], p.get('n_s', 1.)
    Ps = A * np.exp((ns - 1) * L + p.get('n_run', 0.) * L**2 / 2 + p.get('n_runrun', 0.) * L**3 / 6)
    At = p.get('A_t', p.get('r', 0.) * A)
    r = p.get('r', At / A)
    nt, run = p.get('n_t'), p.get('n_t_run', 0.)
    if nt is None:
        nt, run = -r / 8 * (2 - ns - r / 8), r / 8 * (r / 8 + ns - 1)
    Pt = At * np.exp(nt * L + run * L**2 / 2)
    f = 1.0
    if name.startswith('Log'):
        f = 1 + p.get('A_log', 0.) * np.cos(p['w_log'] * L + 2 * math.pi * p['p_log'])
    elif name.startswith('Lin'):
        f = 1 + p.get('A_lin', 0.) * np.cos(p['w_lin'] * ks / PIVOT + 2 * math.pi * p['p_lin'])
    elif name.startswith('Cut'):
        f = -np.expm1(-(ks / p.get('k_cut', 1e-3))**p.get('s_cut', 2.))
    return ks, Ps * f, Pt * f, np.abs(Ps), np.abs(Pt)


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    mon.tag(component=case['component'])
    with quiet():
        if case['kind'] == 'parametric':
            parametric(case, mon, rng)
        else:
            slowroll(case, mon, rng)


def grid(mon, d, **info):
    """what the sampler is told about the wavenumbers."""
    mon.check('grid', d['log_regular'] is True and d['kmin'] < 1e-5 and d['kmax'] > 10 and np.ndim(d['Pk']) == 1 and len(d['Pk']) > 100, **info)
    return np.exp(np.linspace(math.log(d['kmin']), math.log(d['kmax']), len(d['Pk'])))


def parametric(case, mon, rng):
    name = case['component']
    opt = ['n_s', 'n_run', 'n_runrun']
    extra = {'LogOscillationPPS': ['A_log', 'w_log', 'p_log'], 'LinOscillationPPS': ['A_lin', 'w_lin', 'p_lin'], 'CutoffPPS': ['k_cut', 's_cut'], 'PowerLawPPS': []}[name]
    for rep in range(4):
        use = ['A_s'] + [q for q in opt if rng.random() < .6]
        use += [[], ['r'], ['A_t']][rng.integers(3)]
        if rng.random() < .5:
            use += ['n_t'] + (['n_t_run'] if rng.random() < .5 else [])
        use += [q for q in extra if name != 'CutoffPPS' or rng.random() < .6]
        if 'A_log' in use and rng.random() < .2:
            use.remove('A_log')
        fixed, sampled = {}, {}
        for q in use:
            if rng.random() < .3 and q != 'A_s':
                fixed[q] = float(rng.uniform(*RANGES[q]))
            else:
                sampled[q] = RANGES[q]
        m, seen = model(name, sampled, fixed)
        points = [{q: float(rng.uniform(*RANGES[q])) for q in sampled} for _ in range(5)]
        first = {}
        for j, i in enumerate(list(range(5)) + list(rng.permutation(5)) + [0, 0]):
            p = dict(fixed, **points[i])
            m.logposterior(dict(points[i], nuisance=float(j)), cached=bool(rng.random() < .7))
            ks = grid(mon, seen['s'])
            s, t = np.array(seen['s']['Pk']), np.array(seen['t']['Pk'])
            k0, Ps, Pt, s0, t0 = own_spectra(name, p)
            tol = 1e-10
            mon.close('grid', ks, k0, rtol=1e-10)
            wl = abs(p.get('w_lin', 0.)) * 50 / PIVOT * 1e-12 + abs(p.get('w_log', 0.)) * 1e-12
            mon.close('power law', s, Ps, rtol=tol, atol=(tol + wl) * s0, which='scalar', params=p)
            mon.close('power law', t, Pt, rtol=tol, atol=(tol + wl) * t0, which='tensor', params=p)
            mon.check('power law', np.all(np.isfinite(s)) and np.all(np.isfinite(t)), params=p)
            if i in first:
                mon.check('repeat', np.array_equal(s, first[i][0]) and np.array_equal(t, first[i][1]), params=p)
            first[i] = (s, t)
        mon.seen(name, *sorted(use))
        mon.sample(component=name, sampled=sorted(sampled), fixed=fixed)
    # contradictory points
    th = component(name)()
    base = {'A_s': 2e-9, 'n_s': .96}
    base.update({'w_log': 3., 'p_log': .2} if name.startswith('Log') else {'w_lin': 3., 'p_lin': .2} if name.startswith('Lin') else {})
    a = float(rng.uniform(1e-11, 1e-10))
    mon.raises('refused', Exception, lambda: th.calculate({}, A_t=a, r=a / 2e-9 * 1.3, **base), what='r contradicts A_t')
    mon.raises('refused', Exception, lambda: th.calculate({}, r=.1, n_t_run=.01, **base), what='n_t_run with consistency relation')


def slowroll(case, mon, rng):
    from primpy.exceptionhandling import PrimpyError
    P = Pot.from_spec(case['pot'])
    name, route = case['component'], case['route']
    A_s = float(10 ** rng.uniform(-9.5, -8))
    N = float(rng.uniform(42, 62))
    kw = {q: v for q, v in P.kw.items() if q in ('phi0', 'p', 'alpha')}
    out = ['N_star', 'N_end', 'phi_end', 'V_end', 'H_end', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1', 'A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r', 'N_reh']
    info = dict(pot=repr(P), A_s=A_s, route=route)

    def ask(**point):
        fixed = dict(kw)
        sampled = {q: (v - abs(v) * .5, v + abs(v) * .5) for q, v in point.items()}
        m, seen = model(name, sampled, fixed, derived=[q for q in out if q not in point])
        r = m.logposterior(dict(point, nuisance=0.))
        d = dict(zip([q for q in m.parameterization.derived_params()], r.derived))
        mon.check('derived', all(np.array_equal(v, v2, equal_nan=True) for v, v2 in [(r.derived, m.logposterior(dict(point, nuisance=1.), cached=False).derived)]), what='asked again', **info)
        return d, {q: (np.array(v['Pk']), grid(mon, v)) for q, v in seen.items()}, m

    d, spec, m = ask(A_s=A_s, N_star=N)
    mon.tag(component=name, route=route)
    amplitude(mon, P, d, spec, A_s, N, info)
    mon.seen(name, *sorted(kw), 'N_star')
    # another point of the same component, and back
    p2 = dict(A_s=A_s * 1.2, N_star=N - 3., nuisance=2.)
    m.logposterior(p2)
    again = m.logposterior(dict(A_s=A_s, N_star=N, nuisance=3.), cached=False)
    mon.check('repeat', all(v == d[q] or v != v for q, v in zip(m.parameterization.derived_params(), again.derived)), what='revisited', **info)
    mon.seen(name, *sorted(kw), route)
    if route == 'n_s':
        lo, hi = d['n_s'], None
        if not 42 < N < 70:
            return
        e, sp, _ = ask(A_s=A_s, n_s=float(d['n_s']))
        mon.close('round trip', e['N_star'], N, atol=2e-4, rtol=0, what='n_s', **info)
        close_spectra(mon, sp, spec, 2e-5, info)
    elif route in ('reheating', 'N_star rho'):
        rho = float(10 ** rng.uniform(-1, 3))
        try:
            e, sp, _ = ask(A_s=A_s, N_star=N, rho_reh_GeV=rho)
        except Exception as exc:
            mon.check('completes', 'nrealistic' in repr(exc), error=repr(exc)[:300], **info)
            mon.obs('unrealistic reheating')
            return
        mon.close('derived', [e['V_end'], e['N_end']], [d['V_end'], d['N_end']], rtol=1e-9, **info)
        close_spectra(mon, sp, spec, 1e-9, info)
        mon.check('derived', -1 / 3 < e['w_reh'] < 1 and e['DeltaN_reh'] > 0, what='reheating', **{**info, 'rho': rho, 'w': e['w_reh']})
        # energy density falls from the end of inflation to the end of reheating with that equation of state
        want = 1.5 * e['V_end'] * math.exp(-3 * (1 + e['w_reh']) * e['DeltaN_reh'])
        from primpy.units import mp_GeV, lp_iGeV
        mon.close('derived', rho**4, want * mp_GeV / lp_iGeV**3, rtol=1e-6, what='energy', **info)
        mon.close('derived', e['N_reh'] - e['N_end'], e['DeltaN_reh'], rtol=1e-9, atol=1e-9, **info)
        mon.close('derived', e['DeltaN_minus1'], e['DeltaN_reh'] * (1 - 3 * e['w_reh']) / 4, rtol=1e-6, atol=1e-9, **info)
        for r in 10 ** rng.uniform([-13, -10, 2, 9, 12], [-11, 0, 9, 14, 15.5]):
            scan(mon, component(name)(), dict(A_s=A_s, N_star=N, rho_reh_GeV=float(r), **kw), e, float(want * mp_GeV / lp_iGeV**3), rho, info)
        w = float(e['w_reh'])
        f, sp, _ = ask(A_s=A_s, w_reh=w, rho_reh_GeV=rho)
        mon.close('round trip', [f['N_star'], f['DeltaN_reh']], [N, e['DeltaN_reh']], atol=3e-4, rtol=1e-5, what='w_reh rho_reh', w=w, rho=rho, **info)
        close_spectra(mon, sp, spec, 1e-5, info)
        c = component(name)()
        mon.raises('refused', PrimpyError, lambda: c.calculate({}, A_s=A_s, w_reh=1.2, rho_reh_GeV=1e4, **kw), what='equation of state')
        mon.raises('refused', (PrimpyError, ValueError), lambda: c.calculate({}, A_s=A_s, w_reh=-.5, rho_reh_GeV=1e4, **kw), what='equation of state')
        mon.raises('refused', PrimpyError, lambda: c.calculate({}, A_s=A_s, N_star=N, rho_reh_GeV=1e18, **kw), what='energy above the end of inflation')
    mon.sample(**info, N_star=N, derived={q: d[q] for q in ('n_s', 'r', 'V_end')})


def scan(mon, c, point, e, rho4, rho, info):
    """which energies of reheating are refused: the two e-fold counts follow from the energy and from the agnostic reheating parameter, which only depends on N_star."""
    from primpy.exceptionhandling import PrimpyError
    # ln(rho_end/rho_reh) = 3 (1+w) DN and DN (1-3w)/4 = D
    L = 3 * (1 + e['w_reh']) * e['DeltaN_reh'] + 4 * math.log(rho / point['rho_reh_GeV'])
    D = e['DeltaN_minus1']
    x = D / L
    w = (1 - 12 * x) / (3 + 12 * x)
    dN = L / (3 * (1 + w))
    far = [w + 1 / 3, 1 - w, dN, -(e['N_end'] + dN)]
    if min(abs(f) for f in far) < 1e-2 or abs(L) < .1:
        return
    good = min(far) > 0
    try:
        st = {}
        c.calculate(st, **point)
    except PrimpyError as err:
        mon.check('reheating range', not good, error=repr(err)[:200], w=w, dN=dN, N_reh=e['N_end'] + dN, point=point, **info)
        mon.obs('refused reheating')
        return
    d = st['derived']
    if mon.check('reheating range', good, w=w, dN=dN, N_reh=e['N_end'] + dN, got=[d['w_reh'], d['DeltaN_reh']], what='accepted', **{**info, 'pt': point}):
        mon.close('reheating range', [d['w_reh'], d['DeltaN_reh'], d['N_reh']], [w, dN, e['N_end'] + dN], rtol=1e-5, atol=1e-6, **info)


def close_spectra(mon, a, b, tol, info):
    for q in 'st':
        mon.close('round trip', a[q][0], b[q][0], rtol=tol, which=q, **info)


def amplitude(mon, P, d, spec, A_s, N, info):
    """own background and own modes (the trajectory in e-folds does not depend on the scale of the potential)."""
    phi = P.phi_of_N(N + 18.)
    V, dV = P.VdV(phi)
    ref = flow.Ref(P, 0, phi, -dV / math.sqrt(3 * V), 0.0, rtol=1e-12)
    x = ref.N_end - N
    H = lambda n: float(ref.at(n)['H'][0])
    lk = x + math.log(H(x))                         # aH at the pivot
    L = np.array([-5., -1., 0., .01, 3., 5.])
    Ps, Pt = modes.flat_spectra(P.V012, ref.at(4.)['phi'][0], ref.at(4.)['dphidt'][0] / H(4.), 4.0, None, lk + L, rtol=1e-10)
    Ps, Pt = np.asarray(Ps), np.asarray(Pt)
    # size of what a third-order expansion leaves out
    e1 = float(ref.at(x)['dphidt'][0]**2 / 2 / H(x)**2)
    tol = 1e-4
    out = {}
    for q, own in (('s', Ps), ('t', Pt)):
        P_, ks = spec[q]
        mon.check('slow roll', np.all(np.isfinite(P_)) and np.all(P_ > 0), what='finite and positive', which=q, **info)
        out[q] = np.exp(np.interp(np.log(PIVOT) + L, np.log(ks), np.log(P_)))
    scale = A_s / Ps[2]
    mon.close('slow roll', out['s'], Ps * scale, rtol=tol, which='scalar', at=L, **info)
    mon.close('slow roll', out['t'], Pt * scale, rtol=tol, which='tensor', at=L, **info)
    mon.close('slow roll', out['s'][2], A_s, rtol=1e-4, what='amplitude at the pivot', **info)
    if 'n_s' in d:
        mon.close('derived', d['n_s'] - 1, (math.log(Ps[3] / Ps[2])) / .01, atol=3e-4, what='tilt', **info)
    mon.close('derived', d['r'], Pt[2] / Ps[2], rtol=tol, what='r', **info)
    mon.close('derived', d['A_t'], d['r'] * A_s, rtol=2e-5, what='A_t', **info)
    mon.close('derived', d['n_t'], math.log(Pt[3] / Pt[2]) / .01, atol=1e-4, what='n_t', **info)
    # the scale of the potential that gives this amplitude
    e = ref.at(ref.N_end)
    mon.close('derived', d['phi_end'], float(e['phi'][0]), rtol=1e-6, **info)
    mon.close('derived', d['V_end'], P.VdV(float(e['phi'][0]))[0] * scale, rtol=3e-3, what='V_end', **info)
    mon.close('derived', d['H_end']**2, d['V_end'] / 2, rtol=1e-6, what='H_end', **info)
