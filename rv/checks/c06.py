"""C06: reported derivatives of field and Hubble rate and flow parameters are true derivatives along the solution."""
import math
import numpy as np
from .. import bg, flow
from ..flow import Flow
from ..pots import Pot, ALL, random_pot

PROPERTY = 'C06'
RULE = ('random states (potential, field value, velocity of either sign from deep slow roll to kinetic domination, curvature of order one or '
        'negligible) and states recorded from real runs; every derivative helper of both time variables is called on true inputs and on its '
        'own chained inputs. Non-trivial = distinct (family, curvature sign, regime, helper, time variable).')
REQUIRED = {'d2phi': 2000, 'd3phi': 2000, 'd4phi': 2000, 'dH': 2000, 'd2H': 2000, 'd3H': 2000, 'epsilon_1H': 2000, 'epsilon_2H': 2000,
            'epsilon_3H': 2000, 'delta_1': 2000, 'delta_2': 2000, 'delta_3': 2000, 'recorded': 500}


def cases(rng, tier):
    n = 60 if tier == 'quick' else 1500
    out = [{'kind': 'states', 'fam': ALL[i % len(ALL)], 'seed': int(rng.integers(2**31)), 'npot': 4} for i in range(n * 3)]
    for i in range(n):
        s = bg.random_scenario(rng, kinds=ALL)
        s.update(kind='run', seed=int(rng.integers(2**31)))
        out.append(s)
    return out


def run_case(case, mon):
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'states':
        for _ in range(case['npot']):
            P = random_pot(rng, case['fam'])
            lo, hi = P.domain()
            n = 40
            phi = np.concatenate([rng.uniform(lo, hi, n // 2), lo * (hi / lo) ** rng.uniform(0.3, 1, n // 2)])
            j = P.jet(phi, 2)
            V, dV = j.deriv(0).astype(float), j.deriv(1).astype(float)
            K = int(rng.integers(-1, 2))
            om = 10 ** rng.uniform(-9, 0.3, n)                # |curvature| relative to energy density
            regime = ['slow', 'fast', 'mixed'][int(rng.integers(3))]
            if regime == 'slow':
                u = -dV / np.sqrt(3 * V) * rng.uniform(0.8, 1.2, n)
            else:
                u = rng.choice([-1, 1], n) * np.sqrt(2 * V) * 10 ** rng.uniform(-3 if regime == 'mixed' else -0.5, 0.7, n)
            rho = (u**2 / 2 + V) / 3
            om = np.where(K > 0, np.minimum(om, 0.8), om)
            N = -0.5 * np.log(om * rho) if K else rng.uniform(-3, 60, n)
            judge(mon, P, K, phi, u, N, regime, rng)
    else:
        P, K = Pot.from_spec(case['pot']), case['K']
        b = bg.run(case)
        if not np.all(np.isfinite(b.phi)):
            return
        i = np.sort(rng.choice(b.x.size, min(60, b.x.size), replace=False))
        phi, N = b.phi[i], b._N[i]
        u = bg.dphidt_of(b)[i]
        judge(mon, P, K, phi, u, N, 'recorded', rng, b=b, i=i)


def judge(mon, P, K, phi, u, N, regime, rng, b=None, i=None):
    from primpy.time.inflation import InflationEquationsT as ET
    from primpy.efolds.inflation import InflationEquationsN as EN
    mon.tag(family=P.kind, K=K)
    F = Flow(P, phi, u, N, K, order=6)
    H = F.H.c[0]
    with np.errstate(all='ignore'):
        cond = ((u**2 / 2 + np.abs(K) * np.exp(-2 * N)) / np.abs(u**2 / 2 - K * np.exp(-2 * N))).astype(float)
        cH = ((u**2 / 2 + F.V.c[0]) / 3 + abs(K) * np.exp(-2 * N)) / H**2
    ok = np.isfinite(H.astype(float)) & (cond < 100) & (cH < 100) & (np.abs(u) > 1e-9 * np.sqrt(np.abs(F.V.c[0]))) & (F.V.c[0] > 0)
    if ok.sum() == 0:
        return
    phi, u, N = phi[ok], u[ok], N[ok]
    F = Flow(P, phi, u, N, K, order=6)
    p = P.make()
    with np.errstate(all='ignore'):
        dV, d2V, d3V = (np.asarray(getattr(p, m)(phi)) + 0 * phi for m in ('dV', 'd2V', 'd3V'))
    for clock in 'tN':
        E = ET if clock == 't' else EN
        if clock == 't':
            dp = [F.phi.deriv(n) for n in range(1, 5)]
            dh = [F.H.deriv(n) for n in range(0, 4)]
            unit = np.abs(F.H.c[0])                    # one power of H per derivative
        else:
            dp = F.N_derivs(F.phi, 4)
            dh = [F.H.c[0]] + F.N_derivs(F.H, 3)
            unit = np.ones_like(F.H.c[0])
        eps = F.hubble_flow(3)
        e1t = F.dN(-(F.H.d() / (F.H * F.H)))               # d eps1/dN
        eG2 = e1t.c[0]
        h = F.H
        de1 = (-(h.d() / (h * h))).d()
        eG3 = (de1.d() / (h * h)).c[0]
        dpt = [F.phi.deriv(n) for n in range(1, 5)]
        delta = [dpt[n] / (F.H.c[0]**n * dpt[0]) for n in (1, 2, 3)]
        f = lambda z: np.asarray(z, dtype=float)
        dp, dh, eps, delta, unit, eG2, eG3 = [f(z) for z in dp], [f(z) for z in dh], [f(z) for z in eps], [f(z) for z in delta], f(unit), f(eG2), f(eG3)
        H, dphi = dh[0], dp[0]
        fun = dict(K=K)
        V = f(F.V.c[0])
        # natural sizes of the terms that are summed: each time derivative brings at most ~ the largest local rate
        with np.errstate(all='ignore'):
            rate = [unit * 3 * cHs(u, V, K, N, H), np.sqrt(np.abs(d2V)) / (1 if clock == 't' else f(F.H.c[0])),
                    np.abs(dV / (u if clock == 't' else u * f(F.H.c[0]))), np.sqrt(np.abs(d3V * dp[0] / unit**0)) ** (2 / 3) / (1 if clock == 't' else f(F.H.c[0])**(2/3))]
            R = np.max(np.nan_to_num(np.array([r + 0 * unit for r in rate])), axis=0)
        tol = 1e-9
        info = dict(pot=repr(P), clock=clock, regime=regime)
        aphi = [tol * np.abs(dphi) * R**n for n in range(5)]
        ah = [tol * np.abs(H) * R**n for n in range(5)]

        def both(name, true_kw, chain_kw, want, atol):
            g = getattr(E, 'get_' + name)
            mon.close(name, g(**true_kw), want, rtol=tol, atol=atol, **info)
            if chain_kw is not None:
                mon.close(name, g(**chain_kw), want, rtol=10 * tol, atol=10 * atol, chained=True, **info)
            mon.seen(P.kind, np.sign(K), regime, name, clock)

        cH = cHs(u, V, K, N, H)
        c = np.where(cH > 3, cH, 1)
        H2 = E.get_H2(N=N, dphi=dphi, V=V, K=K)
        # N variable: V/(1-q^2/6)
        cq = 1 / np.abs(1 - dp[0]**2 / 6) if clock == 'N' else 1.0
        mon.close('H2', H2, H**2, rtol=1e-10 * c * cq, **info)
        dH = E.get_dH(N=N, H=H, dphi=dphi, K=K)
        mon.close('dH', dH, dh[1], rtol=tol, atol=tol * cond[ok] * np.abs(dh[1]), **info)
        dH_H = E.get_dH_H(N=N, H2=H**2, dphi=dphi, K=K)
        mon.close('dH_H', dH_H, dh[1] / H, rtol=tol * cond[ok], **info)
        d2p = E.get_d2phi(H2=H**2, dH_H=dH_H, dphi=dphi, dV=dV)
        both('d2phi', dict(H2=H**2, dH_H=dh[1] / H, dphi=dphi, dV=dV), None, dp[1], aphi[1])
        both('d2H', dict(N=N, H=H, dH=dh[1], dphi=dphi, d2phi=dp[1], K=K), dict(N=N, H=H, dH=dH, dphi=dphi, d2phi=d2p, K=K), dh[2], ah[2])
        d2H = E.get_d2H(N=N, H=H, dH=dH, dphi=dphi, d2phi=d2p, K=K)
        both('d3phi', dict(H=H, dH=dh[1], d2H=dh[2], dphi=dphi, d2phi=dp[1], dV=dV, d2V=d2V),
             dict(H=H, dH=dH, d2H=d2H, dphi=dphi, d2phi=d2p, dV=dV, d2V=d2V), dp[2], aphi[2])
        d3p = E.get_d3phi(H=H, dH=dH, d2H=d2H, dphi=dphi, d2phi=d2p, dV=dV, d2V=d2V)
        both('d3H', dict(N=N, H=H, dH=dh[1], d2H=dh[2], dphi=dphi, d2phi=dp[1], d3phi=dp[2], K=K),
             dict(N=N, H=H, dH=dH, d2H=d2H, dphi=dphi, d2phi=d2p, d3phi=d3p, K=K), dh[3], ah[3])
        d3H = E.get_d3H(N=N, H=H, dH=dH, d2H=d2H, dphi=dphi, d2phi=d2p, d3phi=d3p, K=K)
        both('d4phi', dict(H=H, dH=dh[1], d2H=dh[2], d3H=dh[3], dphi=dphi, d2phi=dp[1], d3phi=dp[2], dV=dV, d2V=d2V, d3V=d3V),
             dict(H=H, dH=dH, d2H=d2H, d3H=d3H, dphi=dphi, d2phi=d2p, d3phi=d3p, dV=dV, d2V=d2V, d3V=d3V), dp[3], aphi[3])
        # flow parameters from true derivatives (no error propagation to model)
        hn = np.abs(H) * unit**0
        hh = [np.abs(dh[n] / H / unit**n) for n in range(4)]                 # dimensionless
        mon.close('epsilon_1H', E.get_epsilon_1H(H=H, dH=dh[1]), eps[0], rtol=tol, **info)
        k2 = dict(H=H, dH=dh[1], d2H=dh[2])
        k3 = dict(k2, d3H=dh[3])
        mon.close('epsilon_2H', E.get_epsilon_2H(**k2), eps[1], rtol=tol, atol=tol * (hh[2] / hh[1] + 3 * hh[1]), **info)
        mon.close('epsilon_2H', E.get_epsilon_2H(kind='Gong', **k2), eG2, rtol=tol, atol=tol * (hh[2] + 3 * hh[1]**2), gong=True, **info)
        mon.close('epsilon_3H', E.get_epsilon_3H(kind='Gong', **k3), eG3, rtol=tol, atol=tol * (hh[3] + 6 * hh[1] * hh[2] + 9 * hh[1]**3), gong=True, **info)
        with np.errstate(all='ignore'):
            t1 = hh[3] / hh[1] + (hh[2] / hh[1])**2 + hh[2] + 4 * hh[1]**2
            m = np.abs(eps[1]) > 1e-7 * (hh[2] / hh[1] + hh[1])
            if m.any():
                mon.close('epsilon_3H', E.get_epsilon_3H(**k3)[m], eps[2][m], rtol=tol, atol=(1e-9 * (t1 / np.abs(eps[1]) * (1 + (hh[2] / hh[1] + 2 * hh[1]) / np.abs(eps[1]))))[m], **info)
        pp = [np.abs(dp[n] / dphi / unit**n) for n in range(4)]
        kd = dict(H=H, dH=dh[1], dphi=dphi, d2phi=dp[1])
        s1 = pp[1] + hh[1]
        s2 = pp[2] + 3 * pp[1] * hh[1] + hh[2] + hh[1]**2
        s3 = pp[3] + 6 * hh[1] * pp[2] + (4 * hh[2] + 7 * hh[1]**2) * pp[1] + hh[3] + 4 * hh[1] * hh[2] + hh[1]**3
        mon.close('delta_1', E.get_delta_1(**kd), delta[0], rtol=tol, atol=tol * s1, **info)
        kd.update(d2H=dh[2], d3phi=dp[2])
        mon.close('delta_2', E.get_delta_2(**kd), delta[1], rtol=tol, atol=tol * s2, **info)
        kd.update(d3H=dh[3], d4phi=dp[3])
        mon.close('delta_3', E.get_delta_3(**kd), delta[2], rtol=tol, atol=tol * s3, **info)
        mon.obs('states', phi.size)
        if b is not None and (clock == 't') == hasattr(b, 'dphidt'):
            # the recorded Hubble rate and velocity are what the helpers are fed with in post-processing
            ii = i[ok]
            mon.close('recorded', b.H[ii], H, rtol=1e-9 * c * cq, **info)
            mon.close('recorded', E.get_dH(N=b._N[ii], H=b.H[ii], dphi=
                                           (b.dphidt if clock == 't' else b.dphidN)[ii], K=K), dh[1], rtol=1e-8 * cond[ok] * c * cq, **info)
    mon.sample(pot=repr(P), K=K, regime=regime, phi=phi[:3], d4phi=dp[3][:3])


def cHs(u, V, K, N, H):
    return ((u**2 / 2 + V) / 3 + abs(K) * np.exp(-2 * N)) / ((u**2 / 2 + V) / 3 - K * np.exp(-2 * N))
