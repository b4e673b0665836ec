"""Reference potentials (independent of primpy) and the parameter/field lattices used by several checks."""
import mpmath as mp
from mc import jet as J

G = mp.sqrt(mp.mpf(2) / 3)


def _abs(x):
    if isinstance(x, J.Jet):
        return -x if x.c[0] < 0 else x
    return abs(x)


def v_monomial(x, p):
    return _abs(x) ** p


def v_starobinsky(x):
    return (1 - J.exp(-G * x)) ** 2


def v_natural(x, phi0):
    return (1 - J.sincos(x * (mp.pi / mp.mpf(phi0)))[1]) / 2


def v_doublewell(x, phi0, p):
    u = 1 - x / mp.mpf(phi0)
    return (1 - u ** p) ** 2


def v_tmodel(x, p, alpha):
    return J.tanh(x / mp.sqrt(6 * mp.mpf(alpha))) ** (2 * mp.mpf(p))


def v_radion(x, p, alpha):
    xp = x ** p
    return xp / (xp + mp.mpf(alpha))


def v_sgd(x, phi_feature, a_feature, b_feature):
    u = (x - mp.mpf(phi_feature)) / mp.mpf(b_feature)
    return v_starobinsky(x) * (1 - mp.mpf(a_feature) * J.exp(-u * u / 2))


def v_sts(x, phi_feature, a_feature, b_feature):
    u = (x - mp.mpf(phi_feature)) / mp.mpf(b_feature)
    return v_starobinsky(x) * (1 + mp.mpf(a_feature) * J.tanh(u))


def catalogue(tier):
    """name -> list of (kwargs for the constructor, reference parameters)."""
    T = tier == 'thorough'
    cat = {}
    cat['MonomialPotential'] = [(dict(p=p), dict(p=p)) for p in
                                ([0.5, 2 / 3, 1, 4 / 3, 2, 2.5, 3, 4, 6] if T else [2 / 3, 1, 4 / 3, 2, 3, 4, 6])]
    for n, p in [('Linear', 1), ('Quadratic', 2), ('Cubic', 3), ('Quartic', 4)]:
        cat[n + 'Potential'] = [({}, dict(p=p))]
    cat['StarobinskyPotential'] = [({}, {})]
    cat['NaturalPotential'] = [(dict(phi0=f), dict(phi0=f)) for f in
                               ([2., 3.5, 5., 8., 10., 20., 30., 50., 100., 300.] if T else [3., 5., 10., 20., 50., 100.])]
    cat['DoubleWellPotential'] = [(dict(phi0=f, p=p), dict(phi0=f, p=p))
                                  for p in ([2, 3, 4, 5, 6, 8] if T else [2, 3, 4, 6])
                                  for f in ([2., 3.5, 5., 10., 20., 50., 100.] if T else [3., 10., 20., 50.])]
    cat['DoubleWell2Potential'] = [(dict(phi0=f), dict(phi0=f, p=2)) for f in [2., 3.5, 5., 10., 20., 50., 100.]]
    cat['DoubleWell4Potential'] = [(dict(phi0=f), dict(phi0=f, p=4)) for f in [2., 3.5, 5., 10., 20., 50., 100.]]
    cat['TmodelPotential'] = [(dict(p=p, alpha=a), dict(p=p, alpha=a))
                              for p in ([0.5, 1, 1.5, 2, 3, 4] if T else [0.5, 1, 2, 3])
                              for a in ([0.01, 0.1, 1., 5., 10., 100.] if T else [0.1, 1., 10.])]
    cat['RadionGaugePotential'] = [(dict(p=p, alpha=a), dict(p=p, alpha=a))
                                   for p in ([1, 1.5, 2, 3, 4, 6] if T else [1, 2, 3, 4])
                                   for a in ([0.01, 0.1, 1., 10., 100., 1000.] if T else [0.1, 1., 10., 100.])]
    cat['RadionGauge2Potential'] = [(dict(alpha=a), dict(p=2, alpha=a)) for a in [0.01, 0.1, 1., 10., 100.]]
    feats = [dict(phi_feature=f, a_feature=a, b_feature=b)
             for f in [4., 5.5] for a in ([-0.05, 1e-3, 0.1] if T else [-0.05, 1e-3])
             for b in ([0.02, 0.1, 0.5] if T else [0.05, 0.5])]
    cat['StarobinskyGaussianDipPotential'] = [(f, f) for f in feats]
    cat['StarobinskyTanhStepPotential'] = [(f, f) for f in feats]
    return cat


def reference(name):
    """Reference shape V/Lambda^4 as a function of (x, **reference parameters)."""
    if name in ('MonomialPotential', 'LinearPotential', 'QuadraticPotential', 'CubicPotential', 'QuarticPotential'):
        return v_monomial
    return {'StarobinskyPotential': v_starobinsky, 'NaturalPotential': v_natural,
            'DoubleWellPotential': v_doublewell, 'DoubleWell2Potential': v_doublewell,
            'DoubleWell4Potential': v_doublewell, 'TmodelPotential': v_tmodel,
            'RadionGaugePotential': v_radion, 'RadionGauge2Potential': v_radion,
            'StarobinskyGaussianDipPotential': v_sgd, 'StarobinskyTanhStepPotential': v_sts}[name]


def fields(name, ref, tier):
    """Field values at which the class's V is a smooth documented function (both sides of the minimum where defined)."""
    T = tier == 'thorough'
    if reference(name) is v_monomial:
        xs = [0.1, 0.5, 1., 2.5, 5., 10., 15., 20., 40.]
        return xs + [-x for x in xs]
    if name == 'StarobinskyPotential':
        return [-1., -0.3, 0.2, 0.5, 0.94, 1.5, 3., 4., 5.5, 7., 10.]
    if reference(name) in (v_sgd, v_sts):
        f, b = ref['phi_feature'], ref['b_feature']
        d = [-3., -1., -0.4, 0., 0.3, 1., 2.5] if not T else [-6, -3., -1.7, -1., -0.4, -.1, 0., 0.3, .7, 1., 2.5, 5]
        return [0.5, 1., 2., 8.] + [f + b * u for u in d]
    if name == 'NaturalPotential':
        return [ref['phi0'] * u for u in [-0.3, 0.01, 0.05, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 1.2]]
    if reference(name) is v_doublewell:
        us = [0.02, 0.1, 0.25, 0.4, 0.6, 0.8, 0.95]
        us += [-0.1, 1.2] if float(ref['p']).is_integer() else []
        return [ref['phi0'] * u for u in us]
    if name == 'TmodelPotential':
        s = float(mp.sqrt(6 * ref['alpha']))
        us = [0.05, 0.2, 0.5, 1., 1.5, 2.5]
        us += [-0.2, -1.] if float(ref['p']).is_integer() else []
        return [s * u for u in us]
    if reference(name) is v_radion:
        m = ref['alpha'] ** (1. / ref['p'])
        us = [0.05, 0.3, 0.7, 1., 1.7, 4., 10.]
        us += [-0.3, -1.7] if float(ref['p']).is_integer() and ref['p'] % 2 == 0 else []
        return [m * u for u in us]
    raise KeyError(name)


def extremes(name, ref):
    """Further smooth field values: very small, very large, far past the minimum, deep in the saturated regime."""
    V = reference(name)
    if V is v_monomial:
        xs = [1e-6, 1e-3, 0.03, 100., 1000.]
        return xs + [-x for x in xs]
    if V is v_starobinsky:
        return [-6., -3., -1e-3, 1e-6, 1e-3, 0.03, 15., 20., 25.]
    if V in (v_sgd, v_sts):
        f, b = ref['phi_feature'], ref['b_feature']
        return [-1., 1e-3, 0.1, 12., 20.] + [f + b * u for u in (-9., -6., -4.5, 4.5, 6., 9., 12.)]
    if V is v_natural:
        return [ref['phi0'] * u for u in (-2.3, -1., 1e-4, 1e-3, 0.999, 1., 1.5, 1.9999, 2.3, 7.4)]
    if V is v_doublewell:
        us = [1e-3, 0.005, 0.98, 0.995]
        us += [-1., -0.5, 1.5, 1.9, 2.2] if float(ref['p']).is_integer() else []
        return [ref['phi0'] * u for u in us]
    if V is v_tmodel:
        s = float(mp.sqrt(6 * ref['alpha']))
        us = [1e-3, 0.01, 4., 6., 9.]
        us += [-3., -0.01] if float(ref['p']).is_integer() else []
        return [s * u for u in us]
    if V is v_radion:
        m = ref['alpha'] ** (1. / ref['p'])
        us = [1e-3, 0.01, 30., 100.]
        us += [-10., -0.02] if float(ref['p']).is_integer() and ref['p'] % 2 == 0 else []
        return [m * u for u in us]
    raise KeyError(name)


def size(name, ref, x):
    """Size of the largest terms that V, dV, .., d4V are sums of (they may cancel)."""
    V = reference(name)
    if V is v_monomial:
        return [abs(x) ** ref['p'] * max(1, ref['p']) ** k / abs(x) ** k for k in range(5)]
    if V is v_starobinsky:
        return [float(4 * max(1, mp.exp(-2 * G * x)) * 2 ** k) for k in range(5)]
    if V in (v_sgd, v_sts):
        return [float(4 * max(1, mp.exp(-2 * G * x)) * (2 + 3 / ref['b_feature']) ** k) for k in range(5)]
    if V is v_natural:
        return [(1 + abs(x) / ref['phi0']) * (3.15 / ref['phi0']) ** k for k in range(5)]
    if V is v_doublewell:
        u = abs(1 - x / ref['phi0']) ** ref['p']
        return [(1 + u) ** 2 * (2 * ref['p'] / min(abs(ref['phi0'] - x) + 1e-300, ref['phi0'])) ** k for k in range(5)]
    if V is v_tmodel:
        s = float(mp.sqrt(6 * ref['alpha']))
        return [float(mp.tanh(abs(x) / s)) ** (2 * ref['p']) * ((2 * ref['p'] + 4) / min(s, abs(x))) ** k for k in range(5)]
    if V is v_radion:
        return [abs(float(V(mp.mpf(x), **ref))) * ((2 * ref['p'] + 2) / abs(x)) ** k for k in range(5)]
