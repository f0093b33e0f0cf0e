"""Truncated Taylor arithmetic: the derivative oracle.

A ``Jet`` holds Taylor coefficients c[n] = f^(n)(x0)/n! in extended precision, so that every derivative of a
function written once (its value) is known to ~1e-17 without any hand-derived formula.  ``Dual`` is the cheap
float version (value and first derivative) used inside reference integrations.
"""
import math
import numpy as np

LD = np.longdouble


def _arr(v):
    return np.asarray(v, dtype=LD)


class Jet:
    __array_priority__ = 1000

    def __init__(self, c):
        self.c = [_arr(x) for x in c]

    @property
    def n(self):
        return len(self.c) - 1

    @classmethod
    def var(cls, x, order):
        x = _arr(x)
        c = [x, np.ones_like(x)] + [np.zeros_like(x)] * (order - 1)
        return cls(c[:order + 1])

    @classmethod
    def const(cls, x, order):
        x = _arr(x)
        return cls([x] + [np.zeros_like(x)] * order)

    def _lift(self, o):
        return o if isinstance(o, Jet) else Jet.const(o, self.n)

    def __add__(self, o):
        o = self._lift(o)
        return Jet([a + b for a, b in zip(self.c, o.c)])
    __radd__ = __add__

    def __neg__(self):
        return Jet([-a for a in self.c])

    def __sub__(self, o):
        return self + (-self._lift(o))

    def __rsub__(self, o):
        return self._lift(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, Jet):
            o = _arr(o)
            return Jet([a * o for a in self.c])
        m = min(self.n, o.n)
        return Jet([sum(self.c[i] * o.c[k - i] for i in range(k + 1)) for k in range(m + 1)])
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Jet):
            return self * (LD(1) / _arr(o))
        m = min(self.n, o.n)
        q = []
        for k in range(m + 1):
            s = self.c[k]
            for i in range(k):
                s = s - q[i] * o.c[k - i]
            q.append(s / o.c[0])
        return Jet(q)

    def __rtruediv__(self, o):
        return self._lift(o) / self

    def __pow__(self, p):
        if isinstance(p, (int, np.integer)) and p >= 0:
            r = Jet.const(np.ones_like(self.c[0]), self.n)
            b, e = self, int(p)
            while e:
                if e & 1:
                    r = r * b
                b = b * b
                e >>= 1
            return r
        if isinstance(p, (int, np.integer)):
            return 1 / (self ** (-p))
        p = LD(p)
        a, r = self.c, [self.c[0] ** p]
        for k in range(1, self.n + 1):
            s = 0
            for i in range(1, k + 1):
                s = s + (i * (p + 1) - k) * a[i] * r[k - i]
            r.append(s / (k * a[0]))
        return Jet(r)

    def deriv(self, n):
        """n-th derivative value."""
        return self.c[n] * LD(math.factorial(n))

    def d(self):
        """Jet of the derivative (one order less)."""
        return Jet([(k + 1) * self.c[k + 1] for k in range(self.n)])

    def trunc(self, n):
        return Jet(self.c[:n + 1])


class Dual:
    __slots__ = ('v', 'd')

    def __init__(self, v, d=0.0):
        self.v = v
        self.d = d

    def __add__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v + o.v, self.d + o.d)
        return Dual(self.v + o, self.d)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __sub__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v - o.v, self.d - o.d)
        return Dual(self.v - o, self.d)

    def __rsub__(self, o):
        return Dual(o - self.v, -self.d)

    def __mul__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v * o.v, self.v * o.d + self.d * o.v)
        return Dual(self.v * o, self.d * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v / o.v, (self.d - self.v * o.d / o.v) / o.v)
        return Dual(self.v / o, self.d / o)

    def __rtruediv__(self, o):
        return Dual(o / self.v, -o * self.d / self.v**2)

    def __pow__(self, p):
        if p == 0:
            return Dual(1.0, 0.0)
        return Dual(self.v**p, p * self.v**(p - 1) * self.d)


class Dual2(Dual):
    """value, first and second derivative of floats."""
    __slots__ = ('e',)

    def __init__(self, v, d=0.0, e=0.0):
        self.v, self.d, self.e = v, d, e

    def __add__(self, o):
        if isinstance(o, Dual2):
            return Dual2(self.v + o.v, self.d + o.d, self.e + o.e)
        return Dual2(self.v + o, self.d, self.e)
    __radd__ = __add__

    def __neg__(self):
        return Dual2(-self.v, -self.d, -self.e)

    def __sub__(self, o):
        if isinstance(o, Dual2):
            return Dual2(self.v - o.v, self.d - o.d, self.e - o.e)
        return Dual2(self.v - o, self.d, self.e)

    def __rsub__(self, o):
        return Dual2(o - self.v, -self.d, -self.e)

    def __mul__(self, o):
        if isinstance(o, Dual2):
            return Dual2(self.v * o.v, self.v * o.d + self.d * o.v, self.v * o.e + 2 * self.d * o.d + self.e * o.v)
        return Dual2(self.v * o, self.d * o, self.e * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Dual2):
            return self * o.chain(1 / o.v, -1 / o.v**2, 2 / o.v**3)
        return Dual2(self.v / o, self.d / o, self.e / o)

    def __rtruediv__(self, o):
        return self.chain(o / self.v, -o / self.v**2, 2 * o / self.v**3)

    def __pow__(self, p):
        if p == 0:
            return Dual2(1.0)
        return self.chain(self.v**p, p * self.v**(p - 1), p * (p - 1) * self.v**(p - 2) if p != 1 else 0.0)

    def chain(self, f, f1, f2):
        return Dual2(f, f1 * self.d, f2 * self.d**2 + f1 * self.e)


def exp(x):
    if isinstance(x, Jet):
        e = [np.exp(x.c[0])]
        for k in range(1, x.n + 1):
            e.append(sum(i * x.c[i] * e[k - i] for i in range(1, k + 1)) / k)
        return Jet(e)
    if isinstance(x, Dual2):
        e = math.exp(x.v)
        return x.chain(e, e, e)
    if isinstance(x, Dual):
        e = math.exp(x.v)
        return Dual(e, e * x.d)
    return np.exp(x)


def log(x):
    if isinstance(x, Jet):
        r = [np.log(x.c[0])]
        for k in range(1, x.n + 1):
            s = k * x.c[k]
            for i in range(1, k):
                s = s - i * r[i] * x.c[k - i]
            r.append(s / (k * x.c[0]))
        return Jet(r)
    if isinstance(x, Dual2):
        return x.chain(math.log(x.v), 1 / x.v, -1 / x.v**2)
    if isinstance(x, Dual):
        return Dual(math.log(x.v), x.d / x.v)
    return np.log(x)


def sqrt(x):
    if isinstance(x, Jet):
        return x ** LD('0.5')
    if isinstance(x, Dual2):
        r = math.sqrt(x.v)
        return x.chain(r, .5 / r, -.25 / r**3)
    if isinstance(x, Dual):
        s = math.sqrt(x.v)
        return Dual(s, x.d / (2 * s))
    return np.sqrt(x)


def sincos(x):
    s, c = [np.sin(x.c[0])], [np.cos(x.c[0])]
    for k in range(1, x.n + 1):
        s.append(sum(i * x.c[i] * c[k - i] for i in range(1, k + 1)) / k)
        c.append(-sum(i * x.c[i] * s[k - i] for i in range(1, k + 1)) / k)
    return Jet(s), Jet(c)


def cos(x):
    if isinstance(x, Jet):
        return sincos(x)[1]
    if isinstance(x, Dual2):
        return x.chain(math.cos(x.v), -math.sin(x.v), -math.cos(x.v))
    if isinstance(x, Dual):
        return Dual(math.cos(x.v), -math.sin(x.v) * x.d)
    return np.cos(x)


def sin(x):
    if isinstance(x, Jet):
        return sincos(x)[0]
    if isinstance(x, Dual2):
        return x.chain(math.sin(x.v), math.cos(x.v), -math.sin(x.v))
    if isinstance(x, Dual):
        return Dual(math.sin(x.v), math.cos(x.v) * x.d)
    return np.sin(x)


def tanh(x):
    if isinstance(x, Jet):
        t = [np.tanh(x.c[0])]
        # t' = (1 - t^2) x'
        for k in range(1, x.n + 1):
            # coefficients of (1-t^2) up to k-1
            one = []
            for m in range(k):
                v = -sum(t[i] * t[m - i] for i in range(m + 1))
                if m == 0:
                    # 1 - tanh^2 without cancellation
                    v = 1 / np.cosh(x.c[0])**2
                one.append(v)
            t.append(sum(i * x.c[i] * one[k - i] for i in range(1, k + 1)) / k)
        return Jet(t)
    if isinstance(x, Dual2):
        t, u = math.tanh(x.v), 1 / math.cosh(x.v)**2
        return x.chain(t, u, -2 * t * u)
    if isinstance(x, Dual):
        t = math.tanh(x.v)
        return Dual(t, x.d / math.cosh(x.v)**2)
    return np.tanh(x)


def fabs(x):
    if isinstance(x, Jet):
        s = np.sign(x.c[0])
        return Jet([a * s for a in x.c])
    if isinstance(x, Dual):
        return x if x.v >= 0 else -x
    return np.abs(x)


def compose(f, g):
    """f given as Taylor coefficients about g.c[0]; returns f(g) as a jet."""
    h = Jet([np.zeros_like(g.c[0])] + g.c[1:])
    r = Jet.const(f.c[-1], g.n)
    for c in reversed(f.c[:-1]):
        r = r * h + c
    return r
