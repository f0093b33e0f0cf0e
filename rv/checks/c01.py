"""C01: V, dV .. d4V are the documented potential and its true derivatives."""
import math
import numpy as np
from ..pots import ALL, FEATURES, Pot, random_pot

PROPERTY = 'C01'
RULE = ('random potential of each of the 15 families with random parameters and Lambda; field values log/uniform over the inflating side, '
        'past the minimum and past the maximum, near feature centres; scalar, 1-D and 2-D inputs. Non-trivial = distinct '
        '(family, parameter bucket, field region, derivative order) in which the derivative oracle was compared.')
REQUIRED = {'V': 500, 'dV': 500, 'd2V': 500, 'd3V': 500, 'd4V': 500, 'input unchanged': 500, 'scalar=array': 300}


def cases(rng, tier):
    n = 16 if tier == 'quick' else 160
    out = []
    for i in range(n):
        for kind in ALL:
            out.append({'kind': kind, 'seed': int(rng.integers(2**31)), 'npot': 6})
    # bundle to amortise dispatch
    return [{'kind': 'bundle', 'items': out[i:i + 15]} for i in range(0, len(out), 15)]


def regions(P, rng):
    lo, hi = P.domain()
    k, kw = P.kind, P.kw
    if k == 'Tmodel':
        hi = 5 * math.sqrt(6 * kw['alpha'])
    r = {'inflating': rng.uniform(lo, hi, 7), 'small': lo * (hi / lo) ** rng.uniform(0, 1, 7)}
    if k in ('Monomial', 'Linear', 'Quadratic', 'Cubic', 'Quartic', 'Natural'):
        r['negative'] = -rng.uniform(lo, hi, 5)
    if k.startswith('Starobinsky'):
        r['negative'] = -rng.uniform(0.01, 2.5, 5)
    if k == 'Tmodel' and float(kw['p']).is_integer() or k == 'RadionGauge2' or k == 'RadionGauge' and kw['p'] in (2, 4):
        r['negative'] = -rng.uniform(lo, min(hi, 10), 5)
    if k == 'Natural' or k.startswith('DoubleWell'):
        r['beyond'] = kw['phi0'] * rng.uniform(1.02, 1.9, 5)
        r['hilltop'] = kw['phi0'] * (1 - 10 ** rng.uniform(-2, -1, 4))
    if k.startswith('DoubleWell'):
        r['negative'] = -kw['phi0'] * rng.uniform(0.01, 0.4, 5)
    if k in FEATURES:
        r['feature'] = kw['phi_feature'] + kw['b_feature'] * rng.normal(0, 1.5, 9)
    return r


def run_case(case, mon):
    for it in case['items']:
        one(it, mon)


def one(it, mon):
    rng = np.random.default_rng(it['seed'])
    for _ in range(it['npot']):
        P = random_pot(rng, it['kind'])
        mon.tag(family=P.kind)
        p = P.make()
        for reg, phi in regions(P, rng).items():
            j = P.jet(phi, 5)
            near = [P.jet(phi * (1 + s) if reg != 'feature' else phi + s, 5) for s in (1e-3, -1e-3)]
            shape = [None, (phi.size, 1), (1, phi.size)][int(rng.integers(3))]
            x = phi.copy() if shape is None else phi.reshape(shape)
            keep = x.copy()
            for n, m in enumerate(['V', 'dV', 'd2V', 'd3V', 'd4V']):
                f = getattr(p, m)
                with np.errstate(all='ignore'):
                    got = np.broadcast_to(np.asarray(f(x), dtype=float), x.shape).ravel()
                want = j.deriv(n).astype(float)
                scale = np.maximum(np.abs(near[0].deriv(n)), np.abs(near[1].deriv(n))).astype(float)
                # size of the individual terms of a formula whose sum may cancel: V^(m)/d^(n-m), d = distance to a special point
                d = np.abs(phi) if 'phi0' not in P.kw else np.minimum(np.abs(phi), np.abs(phi - P.kw['phi0']))
                terms = np.max([np.abs(j.deriv(m_).astype(float)) / d**(n - m_) for m_ in range(n + 1)], axis=0)
                atol = 1e-9 * scale + 3e-13 * terms
                rtol = 2e-7 if P.kind == 'Tmodel' else 1e-8
                mon.close(m, got, want, rtol=rtol, atol=atol, pot=repr(P), region=reg, phi=phi)
                i = int(rng.integers(phi.size))
                with np.errstate(all='ignore'):
                    s = f(float(phi[i]))
                mon.close('scalar=array', s, got[i], rtol=rtol, atol=atol[i]*1e-2, pot=repr(P), method=m, phi=phi[i])
                mon.seen(P.kind, reg, m, *('%s~%.1g' % (a, b) for a, b in P.kw.items()))
            mon.check('input unchanged', np.array_equal(keep, x), pot=repr(P))
            mon.obs('field_values', phi.size)
        mon.obs('potentials')
    mon.sample(last=repr(P), phi=phi, V=p.V(phi), d4V=p.d4V(phi))
