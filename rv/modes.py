"""Own integration of perturbation modes (independent of the library's formulas)."""
import math
import numpy as np
from scipy import integrate


def flat_spectra(jet, phi, q, N, laH0, logk, rtol=1e-12, X0=1000.0, X1=3e-7):
    """P_s and P_t of the modes ln(k) (in units of the background's ln(aH)) of a flat universe in the Bunch-Davies state.

    jet(phi): the values [V, V', V''] at phi.  The amplitude form of the mode equation (Ermakov) is integrated, which is
    smooth from deep inside to far outside of the horizon; the background is integrated along.
    (phi, q=dphi/dN, N): a state of the background at which ln(aH) is laH0 (only used to start; it is integrated to where it is needed).
    """
    logk = np.atleast_1d(np.asarray(logk, dtype=float))
    out_s, out_t = [], []

    def bgd(phi, q):
        V, dV, d2V = jet(phi)
        e1 = q * q / 2
        H2 = V / (3 - e1)
        qN = -(3 - e1) * (q + dV / V)
        H2N = -2 * e1 * H2
        # qN = -(3-e1) q - V'/H2
        qNN = -(3 - e1) * qN + q * q * qN - d2V * q / H2 + dV * H2N / H2**2
        return H2, e1, qN, qNN

    for lk in logk:
        # start where k = X0 aH (from the given state, forwards)
        f0 = lambda x, y: [y[1], bgd(y[0], y[1])[2]]
        ev = lambda x, y: 0.5 * math.log(bgd(y[0], y[1])[0]) + x - (lk - math.log(X0))
        ev.terminal = True
        ev.direction = 1
        if ev(N, [phi, q]) > 0:
            raise ValueError('state too late')
        s = integrate.solve_ivp(f0, (N, N + 300), [phi, q], method='DOP853', rtol=rtol, atol=1e-15, events=ev)
        Ns = float(s.t_events[0][0])
        p0, q0 = s.y_events[0][0]

        def U(phi, q):
            H2, e1, qN, qNN = bgd(phi, q)
            g = qN / q
            gN = qNN / q - g * g
            return H2, (1 + g)**2 + gN + (1 - e1) * (1 + g), 2 - e1

        def rhs(x, y):
            H2, us, ut = U(y[0], y[1])
            X = math.exp(lk - x) / math.sqrt(H2)
            return [y[1], bgd(y[0], y[1])[2], y[3] * X, X * (y[2]**-3 - (1 - us / X**2) * y[2]), y[5] * X, X * (y[4]**-3 - (1 - ut / X**2) * y[4])]
        H2, us, ut = U(p0, q0)

        def wkb(u):
            w2 = 1 - u / X0**2
            # slope of w along x = k tau : X grows backwards, dw/dx = dw/dN / X, d(X^-2)/dN = 2(1-e1) X^-2
            return w2**-.25, 0.25 * w2**-1.25 * u * 2 * (1 - q0 * q0 / 2) / X0**3
        ws, wt = wkb(us), wkb(ut)
        stop = lambda x, y: lk - x - 0.5 * math.log(bgd(y[0], y[1])[0]) - math.log(X1)
        stop.terminal = True
        r = integrate.solve_ivp(rhs, (Ns, Ns + 300), [p0, q0, ws[0], ws[1], wt[0], wt[1]], method='DOP853', rtol=rtol, atol=1e-15, events=stop)
        y, x = r.y_events[0][0], float(r.t_events[0][0])
        f = math.exp(2 * (lk - x)) / (4 * math.pi**2)
        out_s.append(f * (y[2] / y[1])**2)
        out_t.append(8 * f * y[4]**2)
    return np.array(out_s), np.array(out_t)


def curved_modes(pot, K, phi, u, N, k, N_out, rtol=1e-10):
    """Exact evolution of scalar and tensor modes in a universe of any curvature, from two initial conditions each.

    The scalar modes are evolved in Newtonian gauge through the two first-order constraint equations (field fluctuation x,
    potential f), which involves neither V'' nor the equation for R.  Returns a function of (tensor, y, dy/dN) giving the
    solution with those initial values at N_out (complex linear combination of the two).
    """
    p2 = k * k + k * K * (K + 1)
    kap, ten = p2 - 3 * K, p2 + 2 * K
    VdV = pot.VdV

    def back(phi, u, N):
        V, dV = VdV(phi)
        ia2 = math.exp(-2 * N)
        H = math.sqrt((u * u / 2 + V) / 3 - K * ia2)
        return V, dV, ia2, H

    def lin(u, dV, ia2, H):
        """coefficients of x_N = A f + B x and f_N = C x - f."""
        return (u - 2 * kap * ia2 / u) / H, -dV / (H * u) - 3, u / (2 * H)

    def rhs(N, y):
        phi, u = y[0], y[1]
        V, dV, ia2, H = back(phi, u, N)
        A, B, C = lin(u, dV, ia2, H)
        h1 = -u * u / (2 * H * H) + K * ia2 / (H * H)
        w = ten * ia2 / (H * H)
        return [u / H, -3 * u - dV / H,
                A * y[3] + B * y[2], C * y[2] - y[3], A * y[5] + B * y[4], C * y[4] - y[5],
                y[7], -(3 + h1) * y[7] - w * y[6], y[9], -(3 + h1) * y[9] - w * y[8]]

    def R_of(phi, u, N, x, f):
        V, dV, ia2, H = back(phi, u, N)
        A, B, C = lin(u, dV, ia2, H)
        g = H / u
        gN = g * (-u * u / (2 * H * H) + K * ia2 / (H * H) + 3 + dV / (H * u))
        return f + g * x, C * x - f + g * (A * f + B * x) + gN * x

    V, dV, ia2, H = back(phi, u, N)
    # initial (x, f) that give (R, R') = (1, 0) and (0, s)
    s = max(1.0, math.sqrt(abs(p2) * ia2) / H)
    c1, c2 = R_of(phi, u, N, 1.0, 0.0), R_of(phi, u, N, 0.0, 1.0)
    M = np.array([[c1[0], c2[0]], [c1[1], c2[1]]])
    # rows are of different size: scale
    xf = np.array([[c2[1], -c2[0]], [-c1[1], c1[0]]]) / (c1[0] * c2[1] - c1[1] * c2[0])
    a, b = xf @ np.array([1.0, 0.0]), xf @ np.array([0.0, s])
    y0 = [phi, u, a[0], a[1], b[0], b[1], 1.0, 0.0, 0.0, s]
    sx, sf = abs(u) / H, max(abs(a[1]), abs(b[1]), 1e-30)
    atol = rtol * 1e-3 * np.array([1.0, abs(u), sx, sf, sx, sf, 1, s, 1, s])
    atol[1] = 1e-30
    N_out = np.atleast_1d(np.asarray(N_out, dtype=float))
    r = integrate.solve_ivp(rhs, (N, float(N_out[-1])), y0, method='DOP853', rtol=rtol, atol=atol, t_eval=N_out)
    if r.status < 0 or r.y.shape[1] != N_out.size:
        return None
    y = r.y
    Ra = np.array([R_of(y[0, i], y[1, i], N_out[i], y[2, i], y[3, i])[0] for i in range(N_out.size)])
    Rb = np.array([R_of(y[0, i], y[1, i], N_out[i], y[4, i], y[5, i])[0] for i in range(N_out.size)])

    def combine(tensor, v, dv):
        return v * y[6] + dv / s * y[8] if tensor else v * Ra + dv / s * Rb
    combine.phi, combine.u = y[0], y[1]
    return combine


class Background:
    """Own background with the field velocity in time as variable (accurate in deep kinetic dominance), in e-folds."""

    def __init__(self, pot, K, phi, u, N, t=0.0, past=0.0, rtol=1e-12, Nmax=300.0):
        self.pot, self.K, self.N0 = pot, K, N

        def hub(phi, u, N):
            V, dV = pot.VdV(phi)
            return V, dV, math.sqrt(max((u * u / 2 + V) / 3 - K * math.exp(-2 * N), 1e-300))
        self.hub = hub
        H0 = hub(phi, u, N)[2]
        self.t0, self.H0 = t, H0

        def rhs(N, y):
            V, dV, H = hub(y[0], y[1] * H0, N)
            return [y[1] * H0 / H, -3 * y[1] - dV / (H * H0), H0 / H]
        down = lambda N, y: hub(y[0], y[1] * H0, N)[0] - (y[1] * H0)**2
        down.terminal, down.direction = True, -1
        up = lambda N, y: hub(y[0], y[1] * H0, N)[0] - (y[1] * H0)**2
        up.direction = 1
        s = integrate.solve_ivp(rhs, (N, N + Nmax), [phi, u / H0, 0.0], method='DOP853', rtol=rtol, atol=1e-15, events=[down, up], dense_output=True)
        self.s = s
        self.ok = s.status >= 0
        self.N_end = float(s.t_events[0][0]) if len(s.t_events[0]) else None
        self.N_up = float(s.t_events[1][0]) if len(s.t_events[1]) else None

    def at(self, N):
        """phi, dphi/dt, t, H."""
        N = np.atleast_1d(np.asarray(N, dtype=float))
        y = self.s.sol(N)
        u = y[1] * self.H0
        H = np.array([self.hub(p, v, n)[2] for p, v, n in zip(y[0], u, N)])
        return y[0], u, self.t0 + y[2] / self.H0, H
