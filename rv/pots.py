"""Independent definitions of the inflationary potentials, written once as values.

Each entry knows how to build the primpy object and how to evaluate the documented V(phi) in any arithmetic
(extended-precision jets, duals, floats).  Everything else (derivatives, flow parameters, e-folds) follows.
"""
import math
import numpy as np
from scipy import integrate, optimize
from . import jets as J

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288')


class Pot:
    """kind + params; Lambda separate."""

    def __init__(self, kind, Lambda=1.0, **kw):
        self.kind, self.Lambda, self.kw = kind, Lambda, kw

    # -- primpy object ------------------------------------------------------------------------------------
    def make(self, **over):
        import primpy.potentials as pp
        cls = getattr(pp, self.kind + 'Potential')
        kw = dict(self.kw)
        kw.update(over)
        if 'A_s' not in kw:
            kw.setdefault('Lambda', self.Lambda)
        return cls(**kw)

    # -- value ----------------------------------------------------------------------------------------------
    def shape(self, x):
        """V / Lambda**4 in the arithmetic of x."""
        k, kw = self.kind, self.kw
        ext = isinstance(x, (J.Jet, np.ndarray, np.longdouble)) and not isinstance(x, J.Dual)
        num = LD if ext else float
        if k in ('Monomial', 'Linear', 'Quadratic', 'Cubic', 'Quartic'):
            p = {'Linear': 1, 'Quadratic': 2, 'Cubic': 3, 'Quartic': 4}.get(k) or kw['p']
            return J.fabs(x) ** p
        if k.startswith('Starobinsky'):
            g = J.sqrt(num(2) / num(3)) if ext else math.sqrt(2 / 3)
            base = (1 - J.exp(x * (-g))) ** 2
            if k == 'Starobinsky':
                return base
            x0, a, b = num(kw['phi_feature']), num(kw['a_feature']), num(kw['b_feature'])
            if k == 'StarobinskyGaussianDip':
                return base * (1 - a * J.exp((x - x0) * (x - x0) * (-1 / (2 * b * b))))
            return base * (1 + a * J.tanh((x - x0) / b))
        if k == 'Natural':
            pi = PI if ext else math.pi
            # 1 - cos = 2 sin^2 avoids cancellation
            s = J.sin(x * (pi / num(kw['phi0']) / 2))
            return s * s
        if k in ('DoubleWell', 'DoubleWell2', 'DoubleWell4'):
            p = {'DoubleWell2': 2, 'DoubleWell4': 4}.get(k) or kw['p']
            u = 1 - x / num(kw['phi0'])
            return (1 - u ** p) ** 2
        if k == 'Tmodel':
            s = math.sqrt(6 * kw['alpha']) if not ext else np.sqrt(LD(6) * LD(kw['alpha']))
            return J.tanh(x / s) ** (2 * kw['p'])
        if k in ('RadionGauge', 'RadionGauge2'):
            p = 2 if k == 'RadionGauge2' else kw['p']
            y = x ** p
            return y / (y + num(kw['alpha']))
        raise KeyError(k)

    def V(self, x):
        if isinstance(x, J.Dual):
            L = float(self.Lambda)
            return self.shape(x) * L**4
        if isinstance(x, J.Jet):
            return self.shape(x) * (LD(self.Lambda) ** 4)
        return self.shape(J.Jet.var(x, 1)).c[0] * LD(self.Lambda) ** 4

    def jet(self, phi, order=6):
        return self.V(J.Jet.var(phi, order))

    def VdV(self, phi):
        """float V, V' (fast)."""
        d = self.V(J.Dual(float(phi), 1.0))
        return d.v, d.d

    def V012(self, phi):
        """float V, V', V''."""
        d = self.V(J.Dual2(float(phi), 1.0))
        return d.v, d.d, d.e

    # -- slow-roll flow functions ---------------------------------------------------------------------------
    def eps(self, phi, n=4):
        """[eps_1V .. eps_nV] by the flow recursion (extended precision)."""
        v = self.V(J.Jet.var(phi, n + 2))
        r = v.d() / v                              # V'/V
        e = r * r * LD('0.5')
        out = [e]
        for _ in range(n - 1):
            e = -(r * (e.d() / e))
            out.append(e)
        return [o.c[0] for o in out]

    # -- geometry of the potential --------------------------------------------------------------------------
    def domain(self):
        """(lo, hi) of the inflating side, in phi."""
        k, kw = self.kind, self.kw
        if k in ('Monomial', 'Linear', 'Quadratic', 'Cubic', 'Quartic'):
            return 1e-3, 60.0
        if k.startswith('Starobinsky'):
            return 1e-2, 12.0
        if k == 'Natural' or k.startswith('DoubleWell'):
            return 1e-3 * kw['phi0'], kw['phi0'] * (1 - 1e-3)
        if k == 'Tmodel':
            s = math.sqrt(6 * kw['alpha'])
            return 1e-3 * s, 8 * s
        if k.startswith('RadionGauge'):
            p = 2 if k == 'RadionGauge2' else kw['p']
            return 1e-3, 40 * kw['alpha'] ** (1 / p) + 20
        raise KeyError(k)

    def e1(self, phi):
        d = self.V(J.Dual(float(phi), 1.0))
        return 0.5 * (d.d / d.v) ** 2

    def phi_end(self):
        """largest root of eps_1V = 1 reached when rolling down (scan from the top)."""
        lo, hi = self.domain()
        lo = lo * 1e-6
        if self.kind == 'Natural' or self.kind.startswith('DoubleWell'):
            hi = self.kw['phi0'] * (1 - 1e-9)
            xs = hi * (1 - np.concatenate([np.logspace(-9, -2, 60), np.linspace(0.01, 1 - 1e-9, 400)]))
        else:
            xs = np.concatenate([np.linspace(hi, hi / 100, 600), np.logspace(math.log10(hi / 100), math.log10(lo), 500)])
        prev = None
        for x in xs:
            f = self.e1(x) - 1
            if prev is not None and f > 0 and prev[1] < 0:
                return optimize.brentq(lambda y: math.log(self.e1(y)), x, prev[0], xtol=1e-15, rtol=1e-14)
            prev = (x, f)
        return None

    def efolds(self, phi, phi_end=None):
        """slow-roll e-folds from phi to phi_end: integral of V/V'."""
        pe = self.phi_end() if phi_end is None else phi_end

        def f(y):
            d = self.V(J.Dual(float(y), 1.0))
            return d.v / d.d
        # piecewise to keep quad accurate near hilltops
        tot, err = 0.0, 0.0
        if self.kind == 'Natural' or self.kind.startswith('DoubleWell'):
            p0 = self.kw['phi0']

            def g(s):
                y = p0 - math.exp(s)
                d = self.V(J.Dual(y, 1.0))
                return d.v / d.d * math.exp(s)
            a, b = math.log(p0 - phi), math.log(p0 - pe)
            ys = np.linspace(a, b, 9)
            for i in range(8):
                t, e = integrate.quad(g, ys[i], ys[i + 1], epsabs=0, epsrel=1e-12, limit=200)
                tot += t
            return tot
        ys = np.linspace(pe, phi, 9)
        for i in range(8):
            t, e = integrate.quad(f, ys[i], ys[i + 1], epsabs=0, epsrel=1e-12, limit=200)
            tot += t
        return tot

    def phi_of_N(self, N):
        pe = self.phi_end()
        lo, hi = pe, self.domain()[1]
        if self.kind == 'Natural' or self.kind.startswith('DoubleWell'):
            p0 = self.kw['phi0']
            a, b = math.log(p0 * 1e-12), math.log(p0 - pe)

            def f(s):
                return self.efolds(p0 - math.exp(s), pe) - N
            if f(a) < 0:
                return None
            return p0 - math.exp(optimize.brentq(f, a, b, xtol=1e-13))
        if self.efolds(hi, pe) < N:
            return None
        return optimize.brentq(lambda x: self.efolds(x, pe) - N, lo, hi, xtol=1e-12)

    def spec(self):
        return {'kind': self.kind, 'Lambda': self.Lambda, 'kw': dict(self.kw)}

    @classmethod
    def from_spec(cls, s):
        return cls(s['kind'], s['Lambda'], **s['kw'])

    def __repr__(self):
        return '%s(%s, Lambda=%.6g)' % (self.kind, ', '.join('%s=%.6g' % i for i in self.kw.items()), self.Lambda)

    def with_As(self, A_s=2.1e-9, N=55):
        """Lambda such that slow-roll amplitude is A_s at N e-folds (own formula)."""
        phi = self.phi_of_N(N)
        if phi is None:
            return None
        one = Pot(self.kind, 1.0, **self.kw)
        A = one.VdV(phi)[0] / (24 * math.pi**2 * one.e1(phi))
        return Pot(self.kind, (A_s / A) ** 0.25, **self.kw)


FEATURES = ('StarobinskyGaussianDip', 'StarobinskyTanhStep')
ALL = ['Monomial', 'Linear', 'Quadratic', 'Cubic', 'Quartic', 'Starobinsky', 'Natural', 'DoubleWell',
       'DoubleWell2', 'DoubleWell4', 'Tmodel', 'RadionGauge', 'RadionGauge2'] + list(FEATURES)


def random_pot(rng, kind=None, Lambda=None, weak=False):
    kind = kind or ALL[rng.integers(len(ALL))]
    kw = {}
    if kind == 'Monomial':
        kw['p'] = [2 / 3, 1, 4 / 3, 2, 2.5, 3, 4, 5, float(np.round(rng.uniform(0.5, 4.5), 3))][rng.integers(9)]
    elif kind == 'Natural':
        kw['phi0'] = float(np.round(10 ** rng.uniform(1.25, 2.2), 3))
    elif kind == 'DoubleWell':
        kw['p'] = [2, 3, 4, 5, 6][rng.integers(5)]
        kw['phi0'] = float(np.round(10 ** rng.uniform(1.0, 1.9), 3))
    elif kind in ('DoubleWell2', 'DoubleWell4'):
        kw['phi0'] = float(np.round(10 ** rng.uniform(1.0, 1.9), 3))
    elif kind == 'Tmodel':
        kw['p'] = [1, 2, 3, 0.5, 1.5][rng.integers(5)]
        kw['alpha'] = float(np.round(10 ** rng.uniform(-1, 1.3), 4))
    elif kind == 'RadionGauge':
        kw['p'] = [1, 2, 3, 4, 1.5][rng.integers(5)]
        kw['alpha'] = float(np.round(10 ** rng.uniform(-1, 2), 4))
    elif kind == 'RadionGauge2':
        kw['alpha'] = float(np.round(10 ** rng.uniform(-1, 2), 4))
    elif kind in FEATURES:
        kw['phi_feature'] = float(np.round(rng.uniform(4.5, 5.6), 3))
        kw['a_feature'] = float(np.round(10 ** rng.uniform(-4, -2.5), 6)) * (1 if rng.random() < .7 else -1)
        kw['b_feature'] = float(np.round(10 ** rng.uniform(-1.5, -0.5), 4))
        if weak:
            kw['a_feature'] = abs(kw['a_feature']) * 0.1
            kw['b_feature'] = max(kw['b_feature'], 0.1)
    if Lambda is None:
        Lambda = float(10 ** rng.uniform(-3.2, 0.5))
    return Pot(kind, Lambda, **kw)
