"""C02: potential slow-roll ladder, slow-roll end of inflation, inverse potential, Hubble-flow approximations."""
import math
import numpy as np
from ..pots import ALL, FEATURES, Pot, random_pot
from .. import jets as J

PROPERTY = 'C02'
KINDS = [k for k in ALL if k not in FEATURES]
RULE = ('random potential of each of the 13 families without a feature, random field values on the inflating side; the real slow-roll parameters '
        'are judged by the flow recursion in extended-precision Taylor arithmetic, the Hubble-flow approximations by an independent iterative '
        'solution of the Hamilton-Jacobi equation. Non-trivial = distinct (family, parameter bucket, region, quantity).')
REQUIRED = {'epsilon_1V': 500, 'epsilon_2V': 500, 'epsilon_3V': 500, 'epsilon_4V': 500, 'phi_end': 50, 'inv_V': 300,
            'epsilon_1': 300, 'epsilon_2': 300, 'epsilon_3': 300, 'epsilon_4': 300, 'scalar=array': 300, 'limit': 300}


def cases(rng, tier):
    n = 12 if tier == 'quick' else 200
    return [{'kind': 'bundle', 'items': [{'kind': k, 'seed': int(rng.integers(2**31)), 'npot': 4} for k in KINDS]} for _ in range(n)]


def hubble_flow(P, phi, n=4, iters=6):
    """Hubble-flow parameters on the inflationary attractor: H^2 = V/3 + 2/3 H'^2 iterated from H^2 = V/3."""
    v = P.V(J.Jet.var(phi, n + iters + 2))
    h = J.sqrt(v / 3)
    for _ in range(iters):
        dh = h.d()
        m = dh.n
        h = J.sqrt(v.trunc(m) / 3 + dh * dh * 2 / 3)
    g = h.d()
    r = g / h.trunc(g.n)                       # H'/H ; dphi/dN = -2 H'/H
    e = r * r * 2
    out = [e.c[0]]
    for _ in range(n - 1):
        de = e.d()
        e = -(r.trunc(de.n) * 2 * (de / e.trunc(de.n)))
        out.append(e.c[0])
    return [np.asarray(o, dtype=float) for o in out]


def run_case(case, mon):
    for it in case['items']:
        one(it, mon)
    limit(mon, np.random.default_rng(case['items'][0]['seed']))


class Scaled:
    """V = exp(f(sqrt(lam) phi)): the slow-roll parameters at phi=0 are proportional to lam."""

    def __init__(self, c, lam):
        self.c, self.lam = [np.longdouble(x) for x in c], np.longdouble(lam)

    def V(self, x):
        y, f = x * np.sqrt(self.lam), 0.
        for k in range(len(self.c), 0, -1):
            f = (f + self.c[k - 1] / math.factorial(k)) * y
        return J.exp(f)

    eps = Pot.eps

    def make(self):
        from primpy.potentials import InflationaryPotential
        own = self

        def none(self, *a, **kw):
            raise NotImplementedError

        def get(n):
            return lambda self, phi: np.asarray(own.eps(np.atleast_1d(np.asarray(phi, dtype=np.longdouble)), n)[n - 1], dtype=float)
        body = {n: none for n in InflationaryPotential.__abstractmethods__}
        body.update({'get_epsilon_%dV' % n: get(n) for n in (1, 2, 3, 4)})
        body['__init__'] = lambda self: InflationaryPotential.__init__(self, Lambda=1e-3)
        body.update(tag='usr', name='UserPotential', tex='user', perturbation_ic=(1, 0, 0, 1))
        return type('UserPotential', (InflationaryPotential,), body)()


def limit(mon, rng):
    """the Hubble-flow parameters as expansions in potential slow-roll parameters are right in every term: what is left is of higher order (or contains the fifth potential parameter, which the library does not know)."""
    for _ in range(10):
        c = [float(rng.uniform(.7, 1.6))] + [float(rng.choice([-1, 1]) * rng.uniform(.3, 1.4)) for _ in range(7)]
        R = []
        for lam in (4e-3, 2e-3, 1e-3):
            P = Scaled(c, lam)
            u, phi = P.make(), np.zeros(1, dtype=np.longdouble)
            e = [float(x[0]) for x in P.eps(phi, 5)]
            hf = [float(h[0]) for h in hubble_flow(P, phi)]
            miss = [0., 0., e[2] * e[3] * e[4] / 9, -e[3] * e[4] / 3]
            R.append([(float(np.ravel(getattr(u, 'get_epsilon_%d' % (i + 1))(phi=np.zeros(1)))[0]) - hf[i] + miss[i]) / lam**[3, 3, 3, 2][i] for i in range(4)])
        r = 8 / 3 * np.array(R[2]) - 2 * np.array(R[1]) + np.array(R[0]) / 3
        S = max(1., max(abs(x) for x in e[1:]) / 1e-3)
        if S > 30:
            mon.obs('limit not reached')
            continue
        for i in range(4):
            mon.close('limit', r[i], 0., rtol=0, atol=1e-5 * (1 + S**[3, 3, 3, 2][i]), n=i + 1, c=c, S=S, error_over_lam_n=[x[i] for x in R])
        mon.obs('expansions', 4)


def region(P, rng):
    k, kw = P.kind, P.kw
    lo, hi = P.domain()
    if k == 'Natural' or k.startswith('DoubleWell'):
        f = np.concatenate([rng.uniform(0.02, 0.95, 12), 10 ** rng.uniform(-2.5, -1, 4)])
        return kw['phi0'] * f
    if k == 'Tmodel':
        s = math.sqrt(6 * kw['alpha'])
        return s * np.concatenate([rng.uniform(0.1, 3, 12), 10 ** rng.uniform(-2, 0, 4)])
    if k.startswith('Starobinsky'):
        return np.concatenate([rng.uniform(0.2, 8, 12), 10 ** rng.uniform(-2, 0, 4)])
    if k.startswith('RadionGauge'):
        return np.concatenate([rng.uniform(0.1, 20, 12), 10 ** rng.uniform(-1, 1, 4)])
    return np.concatenate([rng.uniform(0.3, 40, 12), 10 ** rng.uniform(-2, 1.5, 4)])


def one(it, mon):
    rng = np.random.default_rng(it['seed'])
    for _ in range(it['npot']):
        P = random_pot(rng, it['kind'])
        mon.tag(family=P.kind)
        p = P.make()
        phi = region(P, rng)
        shape = [(-1,), (-1, 1), (2, -1)][int(rng.integers(3))]
        x = phi.reshape(shape)
        want = [np.asarray(e, dtype=float) for e in P.eps(phi, 4)]
        near = [[np.asarray(e, dtype=float) for e in P.eps(phi * (1 + s), 4)] for s in (1e-9, -1e-9)]
        keep = x.copy()
        bucket = tuple('%s~%.1g' % i for i in P.kw.items())
        for n in range(4):
            f = getattr(p, 'get_epsilon_%dV' % (n + 1))
            with np.errstate(all='ignore'):
                got = np.asarray(f(x), dtype=float)
            mon.check('shape', got.shape == x.shape, method=n + 1, got=got.shape)
            got = np.broadcast_to(got, x.shape).ravel()
            # closed forms lose digits where numerators cancel (close to the top or the bottom)
            cond = np.abs(near[0][n] - near[1][n])
            mon.close('epsilon_%dV' % (n + 1), got, want[n], rtol=[1e-10, 1e-10, 1e-9, 1e-8][n], atol=3 * cond, pot=repr(P), phi=phi)
            i = int(rng.integers(phi.size))
            with np.errstate(all='ignore'):
                mon.close('scalar=array', f(float(phi[i])), got[i], rtol=1e-9, pot=repr(P), n=n + 1)
            mon.seen(P.kind, n, *bucket)
        mon.check('input unchanged', np.array_equal(keep, x))
        # slow-roll end of inflation
        pe = float(p.phi_end)
        mon.close('phi_end', P.e1(pe), 1.0, rtol=1e-6, pot=repr(P), phi_end=pe)
        own = P.phi_end()
        if own is not None:
            mon.close('phi_end', pe, own, rtol=1e-6, pot=repr(P))
        # inverse potential
        with np.errstate(all='ignore'):
            V = np.asarray(P.V(J.Jet.var(phi, 1)).c[0], dtype=float)
            back = np.asarray(p.inv_V(V), dtype=float)
        slope = np.abs(np.asarray(P.V(J.Jet.var(phi, 1)).deriv(1), dtype=float))
        # V is only known to relative 1e-16, and the shape (V/Lambda^4) to 1e-16 absolute
        atol = 1e-10 * np.abs(phi) + 30 * 2.2e-16 * (V + P.Lambda**4) / slope
        if P.kind == 'Natural' or P.kind.startswith('DoubleWell'):
            # inverse at the bottom/top goes through (1-sqrt(v))**(1/p): digits of the intermediate
            sv = np.sqrt(V) / P.Lambda**2
            ds = slope / (2 * np.sqrt(V)) / P.Lambda**2
            atol = atol + 30 * 2.2e-16 * (1 + sv) / ds
        mon.close('inv_V', back, phi, rtol=1e-9, atol=atol, pot=repr(P))
        j = int(rng.integers(phi.size))
        with np.errstate(all='ignore'):
            mon.close('scalar=array', float(p.inv_V(float(V[j]))), back[j], rtol=1e-9, pot=repr(P), n='inv_V')
        # Hubble flow parameters from potential ones: deep in slow roll the truncation error is known
        for lev in (1e-2, 1e-3, 1e-4):
            q = deep(P, lev)
            if q is None:
                continue
            eV = [float(np.ravel(e)[0]) for e in P.eps(np.array([q]), 4)]
            S = max(abs(e) for e in eV)
            if S > 0.03:
                continue
            hf = [float(h[0]) for h in hubble_flow(P, np.array([q]))]
            # digits lost in the ladder formulas of the library
            lib = [float(getattr(p, 'get_epsilon_%dV' % (i + 1))(q)) for i in range(4)]
            slop = [abs(a - b) for a, b in zip(lib, eV)]
            for i in range(4):
                g = float(getattr(p, 'get_epsilon_%d' % (i + 1))(q))
                order = [3, 3, 2, 1][i]
                mon.close('epsilon_%d' % (i + 1), g, hf[i], rtol=1e-12, atol=abs(eV[i]) * [0.5, 1, 1, 1][i] * S ** order + 3 * max(slop), pot=repr(P), phi=q, level=lev, eV=eV)
        mon.obs('potentials')
        mon.obs('field_values', phi.size)
    mon.sample(pot=repr(P), phi=phi, e4V=want[3], phi_end=pe)


def deep(P, lev):
    """a field value where the largest slow-roll parameter is about lev."""
    k, kw = P.kind, P.kw
    if k in ('Monomial', 'Linear', 'Quadratic', 'Cubic', 'Quartic'):
        p = {'Linear': 1, 'Quadratic': 2, 'Cubic': 3, 'Quartic': 4}.get(k) or kw['p']
        return math.sqrt(max(2 * p, p * p / 2) / lev)
    if k == 'Natural' or k.startswith('DoubleWell'):
        return kw['phi0'] * 0.5
    lo, hi = (0.05, 25.0) if k.startswith('Star') else (0.1, 6 * math.sqrt(6 * kw['alpha'])) if k == 'Tmodel' else (0.1, 1e5)
    f = lambda x: max(abs(float(np.ravel(e)[0])) for e in P.eps(np.array([x]), 4)) - lev
    if f(hi) > 0:
        return None
    for _ in range(60):
        m = math.sqrt(lo * hi)
        if f(m) > 0:
            lo = m
        else:
            hi = m
    return hi
