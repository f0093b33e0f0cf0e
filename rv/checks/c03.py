"""C03: slow-roll conversions between field, e-folds, tilt, tensor ratio and amplitude."""
import math
import warnings
import numpy as np
from ..pots import ALL, FEATURES, Pot, random_pot

PROPERTY = 'C03'
KINDS = [k for k in ALL if k not in FEATURES]
RULE = ('random potential of each of the 13 families without a feature; slow-roll e-folds judged by quadrature of V/V\', round trips of every pair of '
        'conversions, amplitude normalisation judged by the leading slow-roll amplitude. Non-trivial = distinct (family, parameter bucket, quantity).')
REQUIRED = {'phi2N': 300, 'N2phi': 300, 'roundtrip': 300, 'tilt': 100, 'ratio': 100, 'amplitude': 150, 'contradiction': 100}


def cases(rng, tier):
    n = 10 if tier == 'quick' else 160
    return [{'kind': 'bundle', 'items': [{'kind': k, 'seed': int(rng.integers(2**31)), 'npot': 3} for k in KINDS]} for _ in range(n)]


def run_case(case, mon):
    for it in case['items']:
        one(it, mon)


def one(it, mon):
    from primpy.exceptionhandling import PrimpyError, PrimpyWarning
    rng = np.random.default_rng(it['seed'])
    for _ in range(it['npot']):
        P = random_pot(rng, it['kind'])
        mon.tag(family=P.kind)
        pe = P.phi_end()
        if pe is None:
            continue
        p = P.make()
        bucket = tuple('%s~%.1g' % i for i in P.kw.items())
        Ns = np.concatenate([rng.uniform(1, 90, 5), rng.uniform(0.01, 1, 1)])
        phis = [P.phi_of_N(N) for N in Ns]
        hill = 'phi0' in P.kw
        ok = [f is not None and (not hill or P.kw['phi0'] - f > 1e-3 * P.kw['phi0']) for f in phis]
        Ns, phis = Ns[ok], np.array([f for f, o in zip(phis, ok) if o], dtype=float)
        if Ns.size == 0:
            continue
        slope = np.array([abs(np.divide(*reversed(P.VdV(f)))) for f in phis])       # |V'/V| = dphi/dN
        got = np.array([float(p.sr_phi2N(float(f))) for f in phis])
        mon.close('phi2N', got, Ns, rtol=1e-6, atol=1e-6 + 3e-15 * np.abs(phis) / slope, pot=repr(P), phi=phis)
        mon.close('phi2N', p.sr_phi2N(phis.copy()), got, rtol=1e-10, atol=1e-10, pot=repr(P), what='array')
        mon.close('phi2N', float(p.sr_phi2N(p.phi_end)), 0.0, atol=1e-6, pot=repr(P), what='phi_end')
        back = np.array([float(np.real(p.sr_N2phi(float(N)))) for N in Ns])
        # tabulated on 1e5 field values for the general double well
        tab = (P.kw['phi0'] * 1e-5) ** 2 / np.maximum(P.kw['phi0'] - phis, 1e-9) * 10 if P.kind.startswith('DoubleWell') else 0.0
        mon.close('N2phi', back, phis, rtol=1e-7, atol=1e-6 * slope + tab, pot=repr(P), N=Ns)
        again = np.array([float(p.sr_phi2N(float(f))) for f in back])
        mon.close('roundtrip', again, Ns, rtol=1e-6, atol=1e-6 + tab / slope, pot=repr(P), N=Ns)
        if hasattr(p, 'phi2efolds'):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                args = (P.kw['phi0'],) if hill else ()
                mon.close('phi2N', p.phi2efolds(phis.copy(), *args), Ns, rtol=1e-6, atol=1e-5, pot=repr(P), what='phi2efolds')
        if hasattr(p, 'phi_end_squared'):
            mon.close('phi2N', float(p.phi_end_squared(P.kw['phi0'])), (P.kw['phi0'] - pe)**2, rtol=1e-5, pot=repr(P), what='phi_end_squared')
        mon.seen(P.kind, 'efolds', *bucket)
        # tilt and tensor ratio
        if hasattr(p, 'sr_Nstar2ns'):
            kw = {} if P.kind.startswith('Star') else {k: v for k, v in P.kw.items()}
            N = rng.uniform(30, 200, 4)
            if P.kind == 'Natural':
                N = N[N < 80]
            for Ni in N:
                f = P.phi_of_N(float(Ni))
                if f is None or hill and P.kw['phi0'] - f < 1e-4 * P.kw['phi0']:
                    continue
                e = [float(v) for v in P.eps(np.array([f])[0], 2)]
                ns = float(p.sr_Nstar2ns(float(Ni), **kw))
                r = float(p.sr_Nstar2r(float(Ni), **kw))
                # leading order in slow roll; the Starobinsky inversion drops a logarithm in N
                lead_ns, lead_r = 1 - 2 * e[0] - e[1], 16 * e[0]
                big = (e[0] + e[1]) + (1.3 * math.log(Ni) / Ni if P.kind.startswith('Star') else 0) + 1 / Ni
                mon.close('tilt', 1 - ns, 1 - lead_ns, rtol=1.2 * big, pot=repr(P), N=Ni)
                mon.close('ratio', r, lead_r, rtol=2 * big, pot=repr(P), N=Ni)
                try:
                    mon.close('tilt', float(p.sr_ns2Nstar(ns, **kw)), Ni, rtol=1e-6, pot=repr(P), N=Ni, what='round trip')
                except PrimpyError:
                    mon.check('tilt', P.kind == 'Natural' and P.kw['phi0'] < math.pi / math.sqrt(1 - ns), pot=repr(P), what='refused')
                mon.close('ratio', float(p.sr_r2Nstar(r, **kw)), Ni, rtol=1e-6, pot=repr(P), N=Ni, what='round trip')
            if P.kind == 'Natural':
                n_s = float(1 - (math.pi / P.kw['phi0'])**2 * rng.uniform(0.2, 0.95))
                mon.raises('contradiction', PrimpyError, lambda: p.sr_ns2Nstar(n_s, **kw), what='n_s out of reach', pot=repr(P))
            mon.seen(P.kind, 'tilt', *bucket)
        # amplitude
        i = int(np.argmax(Ns))
        N, f = float(Ns[i]), float(phis[i])
        if N < 1 or hill and P.kw['phi0'] - f < 0.01 * P.kw['phi0']:
            continue
        A = float(10 ** rng.uniform(-11, -7))
        one_ = Pot(P.kind, 1.0, **P.kw)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            a = P.make(A_s=A, N_star=N, Lambda=1)
            b = P.make(A_s=A, phi_star=f, Lambda=1)
            mon.check('no warning', not [x for x in w if issubclass(x.category, PrimpyWarning)], what=[str(x.message) for x in w])
        want = (A / (one_.VdV(f)[0] / (24 * math.pi**2 * one_.e1(f)))) ** 0.25
        mon.close('amplitude', float(np.real(a.Lambda)), want, rtol=1e-5, pot=repr(P), N=N, what='N_star')
        mon.close('amplitude', float(np.real(b.Lambda)), want, rtol=1e-5, pot=repr(P), phi=f, what='phi_star')
        mon.close('amplitude', float(a.V(f)), float(np.real(a.Lambda))**4 * one_.VdV(f)[0], rtol=1e-9, pot=repr(P), what='V')
        L, fs, Nst = p.sr_As2Lambda(A_s=A, phi_star=f, N_star=None)
        mon.close('amplitude', [float(np.real(L)), float(np.real(fs)), float(np.real(Nst))], [want, f, N], rtol=1e-5, pot=repr(P), what='sr_As2Lambda(phi)')
        L, fs, Nst = p.sr_As2Lambda(A_s=A, phi_star=None, N_star=N)
        mon.close('amplitude', [float(np.real(L)), float(np.real(fs)), float(np.real(Nst))], [want, f, N], rtol=1e-5, pot=repr(P), what='sr_As2Lambda(N)')
        mon.check('amplitude', p.Lambda == P.Lambda, what='sr_As2Lambda keeps the potential')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            c = P.make(A_s=A, N_star=N, Lambda=0.37)
            mon.check('contradiction', [x for x in w if issubclass(x.category, PrimpyWarning)], what='A_s and Lambda')
        mon.close('amplitude', float(np.real(c.Lambda)), want, rtol=1e-5, pot=repr(P), N=N, what='A_s wins over Lambda')
        mon.raises('contradiction', PrimpyError, lambda: P.make(A_s=A, Lambda=1), what='A_s without pivot')
        mon.raises('contradiction', Exception, lambda: P.make(A_s=A, Lambda=1, N_star=N, phi_star=f), what='A_s with two pivots')
        mon.raises('contradiction', Exception, lambda: p.sr_As2Lambda(A_s=A, phi_star=f, N_star=N), what='two pivots')
        mon.raises('contradiction', Exception, lambda: P.make(nonsense=1.0), what='unknown parameter')
        mon.seen(P.kind, 'amplitude', *bucket)
        mon.obs('potentials')
    mon.sample(pot=repr(P), N=Ns, phi=phis, back=back)
