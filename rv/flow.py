"""Exact derivatives along the background flow, and a reference background integrator (both independent of primpy)."""
import math
import numpy as np
from scipy import integrate
from . import jets as J
from .jets import Jet

LD = np.longdouble


class Flow:
    """Taylor expansion in cosmic time of phi(t), N(t), H(t) through a state (phi, dphidt, N)."""

    def __init__(self, pot, phi, dphidt, N, K, order=6):
        phi, dphidt, N = (np.asarray(a, dtype=LD) for a in np.broadcast_arrays(phi, dphidt, N))
        vj = pot.jet(phi, order + 2)
        dvj = vj.d()
        p = Jet([phi, dphidt])
        n = Jet([N])
        for _ in range(order):
            m = p.n
            pd = p.d()                                                   # order m-1
            nn = Jet(n.c[:m])
            if len(nn.c) < m:
                nn = Jet(nn.c + [np.zeros_like(phi)] * (m - len(nn.c)))
            v = J.compose(vj.trunc(max(m - 1, 0)) if m - 1 < vj.n else vj, p.trunc(m - 1))
            dv = J.compose(dvj.trunc(max(m - 1, 0)), p.trunc(m - 1))
            h2 = (pd * pd * LD('0.5') + v) * (LD(1) / 3) - J.exp(nn * LD(-2)) * LD(K)
            h = J.sqrt(h2)
            # N' = H
            n = Jet([N] + [h.c[i] / (i + 1) for i in range(m)])
            acc = -(h * pd * LD(3)) - dv
            k = m - 1
            p = Jet(p.c + [acc.c[k] / ((k + 1) * (k + 2))])
        self.phi, self.N = p, n.trunc(n.n)
        m = n.n
        pd = p.d()
        v = J.compose(vj, p.trunc(m))
        self.V = v
        self.H2 = (pd.trunc(m) * pd.trunc(m) * LD('0.5') + v) * (LD(1) / 3) - J.exp(self.N * LD(-2)) * LD(K)
        self.H = J.sqrt(self.H2)
        self.K = K

    def dN(self, f):
        """d/dN of a time jet."""
        return f.d() / self.H

    def t_derivs(self, f, n):
        return [f.deriv(i) for i in range(1, n + 1)]

    def N_derivs(self, f, n):
        out = []
        for _ in range(n):
            f = self.dN(f)
            out.append(f.c[0])
        return out

    def hubble_flow(self, n=4):
        e = -(self.H.d() / (self.H * self.H))
        out = [e]
        for _ in range(n - 1):
            e = self.dN(e) / e
            out.append(e)
        return [x.c[0] for x in out]


def rhs_t(pot, K):
    def f(t, y):
        phi, u, N = y[0], y[1], y[2]
        V, dV = pot.VdV(phi)
        H2 = (u * u / 2 + V) / 3 - K * math.exp(-2 * N)
        H = math.sqrt(H2) if H2 > 0 else 0.0
        return [u, -3 * H * u - dV, H, math.exp(-N)]
    return f


def rhs_N(pot, K):
    """independent variable N; y = phi, q=dphi/dN, t, eta."""
    def f(N, y):
        phi, q = y[0], y[1]
        V, dV = pot.VdV(phi)
        k = K * math.exp(-2 * N)
        H2 = (V / 3 - k) / (1 - q * q / 6)
        if not H2 > 0:                           # only reached by trial steps that are rejected
            return [math.nan] * 4
        H = math.sqrt(H2)
        hd = -q * q / 2 + k / H2                 # dlnH/dN
        return [q, -(3 + hd) * q - dV / H2, 1 / H, math.exp(-N) / H]
    return f


class Ref:
    """Reference background in e-folds, dense, from a state given in cosmic-time variables.

    Integrates until past_end e-folds after the first end of inflation (or Nmax).  t is carried in units of 1/H_i and
    eta in units of exp(-N_i)/H_i so that all components are of order one.
    """

    def __init__(self, pot, K, phi, dphidt, N, t=0.0, eta=0.0, rtol=1e-12, past_end=0.0, Nmax=300.0):
        self.pot, self.K = pot, K
        V, _ = pot.VdV(phi)
        H2 = (dphidt**2 / 2 + V) / 3 - K * math.exp(-2 * N)
        self.H_i = Hi = math.sqrt(H2)
        self.N_i = N
        self.t0, self.eta0 = t, eta
        ei = math.exp(-N)

        def rhs(x, y):
            d = rhs_N(pot, K)(x, y)
            return [d[0], d[1], d[2] * Hi, d[3] * Hi / ei]
        self.tu, self.eu = 1 / Hi, ei / Hi
        self.segs = []

        def infl(x, y):
            V = pot.VdV(y[0])[0]
            h2 = (V / 3 - K * math.exp(-2 * x)) / (1 - y[1]**2 / 6)
            return V / h2 - y[1]**2
        self.infl = infl
        up = lambda x, y: infl(x, y)
        up.direction = 1
        down = lambda x, y: infl(x, y)
        down.direction = -1
        down.terminal = True
        kw = dict(method='DOP853', rtol=rtol, atol=1e-14, dense_output=True)
        y0 = [phi, dphidt / Hi, 0.0, 0.0]
        self.start_infl = infl(N, y0)
        s = integrate.solve_ivp(rhs, (N, N + Nmax), y0, events=[down, up], **kw)
        self.ok = s.status >= 0
        self.segs.append(s)
        self.N_end = float(s.t_events[0][0]) if len(s.t_events[0]) else None
        self.N_up = float(s.t_events[1][0]) if len(s.t_events[1]) else None
        if past_end and self.N_end is not None:
            # oscillations pass through V=0 where e-folds are a bad variable: continue in time, invert N(t)
            x = s.t[-1]
            y = s.y[:, -1]
            V = pot.VdV(y[0])[0]
            self.Hs = Hs = math.sqrt((V / 3 - K * math.exp(-2 * x)) / (1 - y[1]**2 / 6))
            g = rhs_t(pot, K)

            def rt(tau, z):           # tau = (t - t_s) * Hs;  z = phi, u/Hs, N - x, (eta-eta_s)*Hs/e^-x
                d = g(0.0, [z[0], z[1] * Hs, z[2] + x])
                return [d[0] / Hs, d[1] / Hs**2, d[2] / Hs, math.exp(-z[2])]
            stop = lambda tau, z: z[2] - past_end
            stop.terminal = True
            s2 = integrate.solve_ivp(rt, (0.0, 1e6), [y[0], y[1] * 1.0, 0.0, 0.0], events=[stop], **kw)
            self.cont = (s2, x, y)
        self.N0, self.N1 = N, s.t[-1]
        if past_end and self.N_end is not None:
            self.N1 = x + float(s2.y[2, -1])

    def raw(self, N):
        N = np.atleast_1d(np.asarray(N, dtype=float))
        y = self.segs[0].sol(N)
        if hasattr(self, 'cont'):
            s2, x, ys = self.cont
            m = N > x
            if m.any():
                # invert N(tau) on the dense output by bisection-polished interpolation
                Nt = N[m] - x
                tau = np.interp(Nt, s2.y[2], s2.t)
                for _ in range(60):
                    z = s2.sol(tau)
                    h = self.hub(z, x)
                    step = (Nt - z[2]) / (h / self.Hs)
                    tau = np.clip(tau + step, 0, s2.t[-1])
                    if np.max(np.abs(step)) < 1e-14 * max(1.0, tau.max()):
                        break
                z = s2.sol(tau)
                h = self.hub(z, x)
                y[:, m] = np.array([z[0], z[1] * self.Hs / h, ys[2] + tau / self.Hs * self.H_i,
                                    ys[3] + z[3] * math.exp(-x) / self.Hs * self.H_i / math.exp(-self.N_i)])
        return y

    def hub(self, z, x):
        V = np.array([self.pot.VdV(p)[0] for p in z[0]])
        return np.sqrt(((z[1] * self.Hs)**2 / 2 + V) / 3 - self.K * np.exp(-2 * (z[2] + x)))

    def at(self, N):
        N = np.atleast_1d(np.asarray(N, dtype=float))
        y = self.raw(N)
        phi, q = y[0], y[1]
        VdV = np.array([self.pot.VdV(p) for p in phi]).reshape(-1, 2)
        V = VdV[:, 0]
        with np.errstate(all='ignore'):
            H = np.sqrt((V / 3 - self.K * np.exp(-2 * N)) / (1 - q**2 / 6))
        if hasattr(self, 'cont'):
            s2, x, _ = self.cont
            m = N > x
            if m.any():
                tau = (y[2][m] - self.cont[2][2]) / self.H_i * self.Hs
                H[m] = self.hub(s2.sol(tau), x)
        return dict(phi=phi, dphidN=q, dphidt=q * H, t=y[2] * self.tu + self.t0, eta=y[3] * self.eu + self.eta0, H=H, V=V, dV=VdV[:, 1], N=N)
