"""C13: a run's results are a function of the last calibration, whatever was calibrated or asked before."""
import math
import types
import warnings
import numpy as np
from .. import bg
from ..pots import Pot, FEATURES
from .c11 import background, calibrations

PROPERTY = 'C13'
RULE = ('random background put through a random history of calibrations (all routes, succeeding and refused), derivations of approximate spectra, spectral queries, spectral-index searches, mode integrations and borrowed '
        'calibrations, then calibrated once more; the full state and the answers to a fixed set of queries are compared, exactly, with those of a fresh run that was only calibrated that last time. Queries are also '
        'compared before and after. Non-trivial = distinct (curvature, clock, last calibration route, previous operation).')
REQUIRED = {'history': 1000, 'query is read only': 1000, 'answers': 300, 'attributes': 25}
TIMEOUT = 120
METHODS = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('LLMS', 3), ('STE', 3), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)]


def cases(rng, tier):
    n = 72 if tier == 'quick' else 1500
    out = []
    for i in range(n):
        K = [0, 1, -1, 0][i % 4]
        s = bg.random_scenario(rng, kinds=bg.SMOOTH + list(FEATURES), K=K, N=(58, 76), clock='tN'[i // 4 % 2])
        s.update(kind='history', seed=int(rng.integers(2**31)), dense=bool(rng.random() < .5), length=int(rng.integers(2, 9)), modes=bool(i % 6 == 0))
        out.append(s)
    return out


def digest(b):
    """every number the run reports: {attribute: array}; splines by their values."""
    out = {}
    for key in b:
        v = b[key]
        if isinstance(v, (bool, int, float, np.generic, np.ndarray)):
            out[key] = np.array(v, dtype=float) if np.asarray(v).dtype != object else np.array([np.asarray(q, float).sum() for q in v])
        elif isinstance(v, dict):
            for q, a in v.items():
                out['%s[%s]' % (key, q)] = np.array(a, dtype=float)
        elif callable(v) and not isinstance(v, (types.FunctionType, types.MethodType)) and hasattr(v, 'get_knots'):
            x = np.linspace(b.logk.min(), b.logk.max(), 23)
            out[key] = np.array(v(x), dtype=float)
    return out


def compare(mon, monitor, got, want, skip=(), **info):
    bad = []
    for key in want:
        if key in skip or key.startswith(skip):
            continue
        g, w = got.get(key), want[key]
        same = g is not None and g.shape == w.shape and bool(np.all((g == w) | (np.isnan(g) & np.isnan(w))))
        if not same:
            bad.append((key, None if g is None else (list(g.shape), g.ravel()[:2].tolist()), (list(w.shape), w.ravel()[:2].tolist())))
        mon.evals[monitor] = mon.evals.get(monitor, 0) + 1
    mon.check(monitor, not bad, differs=[x[0] for x in bad], first=bad[:3], **info)


def answers(b, ks, rng=None):
    out = {}
    todo = [(m, o, name) for m, o in METHODS for name in 'st']
    if rng is not None:
        todo = [todo[i] for i in rng.permutation(len(todo))]
    for m, o, name in todo:
        f = b.P_s_approx if name == 's' else b.P_t_approx
        try:
            out['%s %s%d' % (name, m, o)] = np.array(f(ks, method=m, order=o), dtype=float)
        except (ValueError, TypeError, IndexError) as e:
            out['%s %s%d' % (name, m, o)] = np.array([float(len(type(e).__name__))])
    return out


KNOWN = ('_N_reh', '_N_cross', '_logaH_star', '_k')
CACHE = ('P_s_approx_', 'P_t_approx_')


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    P, K = Pot.from_spec(case['pot']), case['K']
    mon.tag(family=P.kind, K=K, clock=case['clock'])
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        state = rng.bit_generator.state
        b, ref = background(case, mon, np.random.default_rng(case['seed']))
        if b is None:
            return
        fresh, _ = background(case, mon, np.random.default_rng(case['seed']))
        other, _ = background(case, mon, np.random.default_rng(case['seed']))
        history(case, mon, rng, P, K, b, fresh, other)


def attempt(f):
    try:
        return None, f()
    except Exception as e:
        return type(e).__name__, None


def history(case, mon, rng, P, K, b, fresh, other):
    own = bg.Own(b, P, K)
    raw = digest(b)
    done = []
    info = dict(pot=repr(P), K=K, clock=case['clock'])

    def settings():
        c = calibrations(b, own, K, rng)
        name, kw = c[rng.integers(len(c))]
        kw = dict(kw)
        if rng.random() < .5:
            m, o = METHODS[rng.integers(len(METHODS))]
            kw.update(method=m)
            if m in ('CGS', 'ARBDS') and rng.random() < .7:
                kw.update(order=o)
        return name, kw

    calibrated = False
    for _ in range(case['length']):
        r = rng.random()
        if r < .45 or not calibrated:
            name, kw = settings()
            err, _ = attempt(lambda: b.calibrate_scale_factor(**kw))
            calibrated = err is None
            done.append((name if not err else 'failing ' + name))
        elif r < .52:
            bad = [dict(), dict(N_star=1e3), dict(N_star=-3), dict(Omega_K0=.2, h=.7), dict(calibration_method='what', h=.7), dict(Omega_K0=-.2, h=-1), dict(calibration_method='reheating', h=.7, w_reh=-.9, DeltaN_reh=3.)]
            err, _ = attempt(lambda: b.calibrate_scale_factor(**bad[rng.integers(len(bad))]))
            calibrated = err is None
            done.append('bad request')
        elif r < .67:
            m, o = METHODS[rng.integers(len(METHODS))]
            err, _ = attempt(lambda: b.derive_approx_power(method=m, order=o) if m in ('CGS', 'ARBDS') else b.derive_approx_power(method=m))
            done.append('derive ' + m)
        elif r < .9:
            before = digest(b)
            kind = query(case, mon, rng, b, other, own, K)
            compare(mon, 'query is read only', digest(b), before, skip=CACHE if kind == 'spectrum' else (), op=kind, done=done, **info)
            done.append('query ' + kind)
        elif K == 0:
            err, _ = attempt(lambda: b.set_ns(n_s=float(rng.uniform(.95, .98)), N_star_min=20., N_star_max=min(b.N_tot - .5, 70.)))
            calibrated = err is None
            done.append('set_ns')
    # once more, on both
    if K == 0 and rng.random() < .15:
        name, kw = 'set_ns', dict(n_s=float(rng.uniform(.95, .975)), N_star_min=20., N_star_max=min(b.N_tot - .5, 70.))
        f = lambda c: c.set_ns(**kw)
    elif K == 0 and rng.random() < .2:
        # calibration lent by another run
        N_star = float(rng.uniform(30, b.N_tot - 2))
        if attempt(lambda: other.calibrate_scale_factor(N_star=N_star))[0] is not None:
            return
        name, kw = 'borrowed', dict(N_star=N_star)
        f = lambda c: c.calibrate_scale_factor(background=other, **kw)
    else:
        name, kw = settings()
        f = lambda c: c.calibrate_scale_factor(**kw)
    e1, _ = attempt(lambda: f(b))
    e2, _ = attempt(lambda: f(fresh))
    mon.check('history', e1 == e2, what='only one of them can be calibrated', history_raises=e1, fresh_raises=e2, kw=kw, done=done, **info)
    if e1 is not None or e2 is not None:
        mon.obs('last calibration refused')
        return
    mon.obs('histories')
    mon.seen(K, case['clock'], name, done[-1] if done else '')
    info.update(last=(name, kw), done=done)
    d, w = digest(b), digest(fresh)
    compare(mon, 'history', d, w, **info)
    if name != 'borrowed':            # the lender has the amplitudes and what concerns reheating
        extra = [k for k in set(d) - set(w) if not (k.startswith('_') and k not in raw and k not in KNOWN)]      # (private caches are nobody's business)
        mon.check('attributes', not extra and not set(w) - set(d), extra=sorted(extra), missing=sorted(set(w) - set(d)), **info)
    # calibration may not touch what was integrated
    compare(mon, 'history', {k: v for k, v in digest(fresh).items()}, raw, skip=('inflation_mask',), what='raw solution', **info)
    ks = np.exp(rng.uniform(b.logk.min(), b.logk.max(), 7))
    a, c = answers(b, ks, rng), answers(fresh, ks, rng)
    compare(mon, 'answers', a, c, **info)
    compare(mon, 'query is read only', digest(fresh), w, skip=CACHE, op='all spectra', **info)
    # asked again, in another order
    order = rng.permutation(len(METHODS))
    again = {}
    for i in order:
        m, o = METHODS[i]
        for g, nm in ((fresh.P_t_approx, 't'), (fresh.P_s_approx, 's')):
            key = '%s %s%d' % (nm, m, o)
            if c[key].size == ks.size:
                again[key] = np.array(g(ks, method=m, order=o), dtype=float)
    compare(mon, 'answers', again, {k: c[k] for k in again}, what='asked again', **info)
    if case['modes']:
        spectra(mon, rng, b, fresh, info)
    mon.sample(done=done, last=name, attributes=len(d), N_star=b.N_star)


def query(case, mon, rng, b, other, own, K):
    r = rng.integers(5)
    ks = np.exp(rng.uniform(b.logk.min(), b.logk.max(), 3))
    if r <= 1:
        m, o = METHODS[rng.integers(len(METHODS))]
        attempt(lambda: (b.P_s_approx if rng.random() < .5 else b.P_t_approx)(ks, method=m, order=o))
        return 'spectrum'
    if r == 2:
        attempt(lambda: b.P_scalar_approx(ks))
        attempt(lambda: b.P_tensor_approx(ks))
        return 'default spectrum'
    if r == 3 and K == 0:
        attempt(lambda: other.calibrate_scale_factor(N_star=b.N_star, background=b))
        return 'lend calibration'
    p = b.potential
    phi = own.phi[rng.integers(own.phi.size)]
    for q in ('V', 'dV', 'd2V', 'get_epsilon_1V', 'sr_phi2N'):
        attempt(lambda: getattr(p, q)(phi))
    return 'potential'


def spectra(mon, rng, b, fresh, info):
    from primpy.oscode_solver import solve_oscode
    la = b._logaH[b.inflation_mask]
    k = np.exp(rng.uniform(la[0], la[-1] - 8, size=2))
    w = digest(fresh)
    before = digest(b)
    r = [solve_oscode(c, k, vacuum=('RST', 'HD'), fac_beg=50, rtol=1e-4) for c in (b, fresh)]
    compare(mon, 'query is read only', digest(b), before, op='modes', **info)
    compare(mon, 'query is read only', digest(fresh), w, op='modes', **info)
    for key in ('P_s_RST', 'P_t_RST', 'P_s_HD', 'P_t_HD'):
        x, y = getattr(r[0], key), getattr(r[1], key)
        mon.check('answers', np.array_equal(x, y, equal_nan=True), what='modes after a history', key=key, got=x, want=y, **info)
