"""C15: the Cobaya spectrum theories return their parametrised spectra, for any subset of parameters and any history."""
import itertools
import math
import warnings

import numpy as np

PID, LEVEL = 'C15', 'exploration'
TECHNIQUE = ("exhaustive enumeration of parameter subsets, values and call histories on the real theory objects, alone and inside a Cobaya "
             "model, against the parametrisation")
NOTE = ("every subset of optional parameters over a value alphabet and every history of calculations up to the stated depth is executed on "
        "the real theory classes; parameter values outside the alphabet are not covered")
RULE = ("theory class x {omitted, values} for each of n_s, n_run, n_runrun, the tensor amplitudes, n_t, n_t_run and the feature parameters; "
        "all histories of <= 2 (thorough 3) calculations on one object; the same in a Cobaya model; non-trivial: spectra compared or an error expected")
ASSUMPTIONS = ["oscillations multiply both spectra by 1 + A cos(w x + 2 pi p), x = ln(k/k_pivot) or k/k_pivot; the cutoff by 1 - exp(-(k/k_cut)^s_cut)",
               "tensor consistency to second order in slow-roll as in CAMB: n_t = -r/8 (2 - n_s - r/8), n_t_run = r/8 (r/8 + n_s - 1)",
               "r and A_t agree when r = A_t/A_s to 1e-9, disagree when they differ by 1e-3 or more"]
CASE_TIMEOUT = 300
FEAT = {'PowerLawPPS': ('powerlaw_pps', [{}]),
        'LogOscillationPPS': ('feature_pps', [{}, dict(A_log=0.), dict(A_log=0., w_log=3., p_log=.2), dict(A_log=.1, w_log=10., p_log=0.),
                                              dict(A_log=.3, w_log=.7, p_log=.3), dict(A_log=-.05, w_log=100., p_log=.9), dict(w_log=5., p_log=.1)]),
        'LinOscillationPPS': ('feature_pps', [{}, dict(A_lin=0.), dict(A_lin=0., w_lin=3., p_lin=.2), dict(A_lin=.1, w_lin=10., p_lin=0.),
                                              dict(A_lin=.3, w_lin=.7, p_lin=.3), dict(A_lin=-.05, w_lin=.01, p_lin=.9), dict(w_lin=5., p_lin=.1)]),
        'CutoffPPS': ('feature_pps', [{}, dict(k_cut=1e-4), dict(k_cut=3e-3, s_cut=1.), dict(s_cut=3.5), dict(k_cut=1e-9, s_cut=2.),
                                      dict(k_cut=.2, s_cut=.5)])}
NS = [None, 1., .965, 1.1]
RUN = [(None, None), (.01, None), (None, -.02), (-.03, .01), (0., 0.)]
TENS = ['none', 'A_t', 'A_t big', 'r', 'r=0', 'A_t=0', 'both', 'both rounded', 'mismatch', 'gross mismatch', 'A_t, r=0']
NT = [(None, None), (-.02, None), (0., None), (.1, .01), (None, 0.), (None, .01), (0., 0.)]


def tensor(t, A_s):
    return {'none': {}, 'A_t': dict(A_t=.1 * A_s), 'A_t big': dict(A_t=3 * A_s), 'r': dict(r=.05), 'r=0': dict(r=0.), 'A_t=0': dict(A_t=0.),
            'both': dict(A_t=.1 * A_s, r=.1 * A_s / A_s), 'both rounded': dict(A_t=.07 * A_s, r=.07 * (1 + 3e-16)),
            'mismatch': dict(A_t=.1 * A_s, r=.1001), 'gross mismatch': dict(A_t=.1 * A_s, r=.3), 'A_t, r=0': dict(A_t=.1 * A_s, r=0.)}[t]


def expected(cls, p, ks, kp):
    """(P_s, P_t) or None when an error is due."""
    A_s, n_s = p['A_s'], p.get('n_s', 1.)
    x = np.log(ks / kp)
    ps = A_s * (ks / kp) ** (n_s - 1 + p.get('n_run', 0) / 2 * x + p.get('n_runrun', 0) / 6 * x ** 2)
    if 'A_t' in p and p['A_t'] > 0:
        r = p['A_t'] / A_s
        if 'r' in p and abs(p['r'] - r) > 1e-9 * r:
            return None
    else:
        r = p.get('r', 0.)
    if p.get('n_t') is None:
        if p.get('n_t_run'):
            return None
        e = r / 8
        nt, ntr = -e * (2 - n_s - e), e * (e + n_s - 1)
    else:
        nt, ntr = p['n_t'], p.get('n_t_run', 0.)
    pt = r * A_s * (ks / kp) ** (nt + ntr / 2 * x)
    f = 1.
    if cls == 'LogOscillationPPS' and p.get('A_log'):
        f = 1 + p['A_log'] * np.cos(p['w_log'] * x + 2 * math.pi * p['p_log'])
    if cls == 'LinOscillationPPS' and p.get('A_lin'):
        f = 1 + p['A_lin'] * np.cos(p['w_lin'] * ks / kp + 2 * math.pi * p['p_lin'])
    if cls == 'CutoffPPS':
        f = -np.expm1(-(ks / p.get('k_cut', 1e-3)) ** p.get('s_cut', 2.))
    return ps * f, pt * f


def theory(cls, kp=None):
    import importlib
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('cobaya_wrapper.' + FEAT[cls][0])
    return getattr(mod, cls)({} if kp is None else dict(k_pivot=kp))


def calculate(t, p):
    s = {}
    try:
        t.calculate(s, want_derived=True, **p)
    except Exception as e:
        return None, e
    return s, None


def compare(ctx, key, cls, p, ps, pt, kp):
    """Spectra dictionaries against the parametrisation on the grid they declare."""
    for which, d in (('scalar', ps), ('tensor', pt)):
        ctx.ev()
        P = np.asarray(d['Pk'])
        if P.ndim != 1 or len(P) < 100 or not d['log_regular'] or not 0 < d['kmin'] <= 1e-6 or not 10 <= d['kmax'] < np.inf:
            ctx.bad(key, '%s spectrum is not log-regular over the needed range: %r' % (which, {k: v for k, v in d.items() if k != 'Pk'}))
            return
        ks = np.geomspace(d['kmin'], d['kmax'], len(P))
        want = expected(cls, p, ks, kp)
        if want is None:
            ctx.bad(key, 'inconsistent parameters accepted: %r' % (p,))
            return
        w = want[which == 'tensor']
        tol = 1e-9 * np.abs(w)
        if cls == 'LinOscillationPPS' and p.get('A_lin'):      # the phase w k/kp is large: rounding
            tol = tol + np.abs(w).max() * 0 + 1e-12 * abs(p['w_lin']) * ks / kp * np.abs(expected('PowerLawPPS', p, ks, kp)[which == 'tensor'])
        if cls == 'CutoffPPS':
            tol = tol + 1e-15 * np.abs(expected('PowerLawPPS', p, ks, kp)[which == 'tensor'])
        b = ~(np.abs(P - w) <= tol)
        if b.any():
            i = int(np.argmax(b))
            ctx.bad(key, '%s spectrum at k=%.6g is %r, parametrisation %r (%r)' % (which, ks[i], P[i], w[i], p))
            return


def judge(ctx, key, cls, p, s, exc, kp=.05):
    due = expected(cls, p, np.array([.05]), kp) is None
    ctx.outcome('error due' if due else 'spectra due')
    if due:
        ctx.true(key, exc is not None, 'inconsistent parameters accepted: %r' % (p,))
    elif exc is not None:
        ctx.ev()
        ctx.bad(key, 'raised %r for %r' % (exc, p))
    else:
        compare(ctx, key, cls, p, s['primordial_scalar_pk'], s['primordial_tensor_pk'], kp)


def point(A_s, n_s, run, ten, nt, feat):
    p = dict(A_s=A_s)
    for n, v in zip(('n_s', 'n_run', 'n_runrun', 'n_t', 'n_t_run'), (n_s,) + tuple(run) + tuple(nt)):
        if v is not None:
            p[n] = v
    p.update(tensor(ten, A_s))
    p.update(feat)
    return p


def alphabet(cls):
    """Points for histories: they differ in every parameter, some leave parameters out, some are rejected."""
    F = FEAT[cls][1]
    return [point(2.1e-9, .965, (None, None), 'r', (None, None), F[min(3, len(F) - 1)]),
            point(2.1e-9, None, (None, None), 'none', (None, None), F[0]),
            point(3e-9, .9, (.01, .01), 'A_t', (.1, .01), F[min(4, len(F) - 1)]),
            point(2.1e-9, .965, (None, None), 'gross mismatch', (None, None), F[min(3, len(F) - 1)]),
            point(2.1e-9, .965, (None, None), 'r', (None, .01), F[-1]),
            point(2.1e-9, .965, (None, None), 'none', (-.02, None), F[-1])]


def cases(tier, seed):
    T = tier == 'thorough'
    out = []
    for cls in FEAT:
        for i in range(len(FEAT[cls][1])):
            for ten in TENS:
                out.append(dict(kind='subsets', cls=cls, feat=i, ten=ten, A_s=[2.1e-9, 1e-10, 3.3e-9] if T else [2.1e-9]))
        out.append(dict(kind='history', cls=cls, depth=4 if T else 2))
        out.append(dict(kind='model', cls=cls, depth=4 if T else 3))
        out.append(dict(kind='pivot', cls=cls))
        out.append(dict(kind='invalid', cls=cls))
        for other in FEAT:
            out.append(dict(kind='grids', cls=cls, other=other))
    return out


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['run_' + case['kind']](case, ctx)


def run_subsets(case, ctx):
    cls = case['cls']
    for A_s in case['A_s']:
        for n_s, rn, nt in itertools.product(NS, RUN, NT):
            p = point(A_s, n_s, rn, case['ten'], nt, FEAT[cls][1][case['feat']])
            s, exc = calculate(theory(cls), p)
            judge(ctx, '%s %r' % (cls, sorted(p.items())), cls, p, s, exc)
    ctx.sample = dict(case=case, last=p)


def run_history(case, ctx):
    cls = case['cls']
    A = alphabet(cls)
    for n in range(1, case['depth'] + 1):
        for seq in itertools.product(range(len(A)), repeat=n):
            t = theory(cls)
            res = []
            for i in seq:
                given = dict(A[i])
                res.append((A[i],) + calculate(t, A[i]))
                ctx.true('%s %s input' % (cls, seq), A[i] == given, 'the input parameters were modified')
            for p, s, exc in res:                                   # earlier results too: no aliasing between calculations
                judge(ctx, '%s history %s' % (cls, seq), cls, p, s, exc)
    ctx.sample = dict(case=case)


def run_model(case, ctx):
    """Histories inside a Cobaya model: caching, supported parameters and the provider."""
    from cobaya.likelihood import Likelihood
    from cobaya.model import get_model

    class L(Likelihood):
        def get_requirements(self):
            return {'primordial_scalar_pk': None, 'primordial_tensor_pk': None}

        def logp(self, **kw):
            return 0.

    cls = case['cls']
    F = FEAT[cls][1][min(3, len(FEAT[cls][1]) - 1)]
    sets = [dict(A_s=[2.1e-9, 3e-9], **{k: [v] for k, v in F.items()}),
            dict(A_s=[2.1e-9, 1e-9], n_s=[.96, 1.02], n_run=[.01], n_runrun=[0.], r=[.1, .02], **{k: [v] for k, v in F.items()}),
            dict(A_s=[2.1e-9], A_t=[1e-10, 2e-10], n_t=[-.01, .02], n_t_run=[.003], n_s=[.96], **{k: [v] for k, v in F.items()}),
            dict(A_s=[2.1e-9], n_s=[.96], r=[.1], A_t=[2.1e-10, 5e-10])]
    for j, vals in enumerate(sets):
        names = list(vals)
        pts = [dict(zip(names, v)) for v in itertools.product(*vals.values())]
        m = get_model({'theory': {'pps': {'external': type(theory(cls))}}, 'likelihood': {'l': {'external': L}}, 'debug': 50,
                       'params': {n: {'prior': {'min': -1e3, 'max': 1e3}} for n in names}})
        for seq in itertools.product(range(len(pts)), repeat=min(case['depth'], 3 if len(pts) > 4 else 4)):
            for i in seq:
                p = pts[i]
                lp = m.logposterior(p, cached=True)
                key = '%s model %d %s' % (cls, j, seq)
                ctx.outcome('model')
                if expected(cls, p, np.array([.05]), .05) is None:
                    ctx.true(key, lp.logpost == -np.inf, 'inconsistent point not rejected: %r' % (p,))
                elif lp.loglikes.tolist() != [0.]:
                    ctx.bad(key, 'consistent point rejected: %r' % (p,))
                else:
                    compare(ctx, key, cls, p, m.provider.get_primordial_scalar_pk(), m.provider.get_primordial_tensor_pk(), .05)
    ctx.sample = dict(case=case, sets=[list(s) for s in sets])


def run_pivot(case, ctx):
    """The pivot is the theory's k_pivot (default 0.05/Mpc), also after another object used another pivot."""
    cls = case['cls']
    for order in itertools.permutations((None, .002, 1.)):
        ts = [(kp, theory(cls, kp)) for kp in order]
        for kp, t in ts:
            for p in alphabet(cls):
                s, exc = calculate(t, p)
                judge(ctx, '%s k_pivot=%s in %s' % (cls, kp, order), cls, p, s, exc, kp or .05)


def run_grids(case, ctx):
    """Each theory answers on its own k grid, whichever grids other theories of the process use."""
    cls, other = case['cls'], case['other']
    grids = [None, (9e-7, 9e1, None), (1e-7, 20., None), (1e-7, 50., 333)]
    for ga, gb in itertools.product(grids, repeat=2):
        for ia, ib in itertools.product(range(6), repeat=2):
            a, b = theory(other), theory(cls)
            for t, g in ((a, ga), (b, gb)):
                if g is not None:
                    n = g[2] or len(t.ks)
                    t.kmin, t.kmax, t.ks = g[0], g[1], np.geomspace(g[0], g[1], n)
            calculate(a, alphabet(other)[ia])
            p = alphabet(cls)[ib]
            s, exc = calculate(b, p)
            key = '%s %d on grid %s after %s %d on grid %s' % (cls, ib, gb, other, ia, ga)
            judge(ctx, key, cls, p, s, exc)
            if s and gb is not None:
                d = s['primordial_scalar_pk']
                ctx.true(key, (d['kmin'], d['kmax'], len(d['Pk'])) == (gb[0], gb[1], len(b.ks)), 'spectrum is on another grid')


def run_invalid(case, ctx):
    """No spectrum without A_s."""
    cls = case['cls']
    for p in (dict(), dict(n_s=.96), dict(A_t=1e-10), dict(r=.1, n_s=.96), dict(A_t=1e-10, n_t=0., n_t_run=0.)):
        s, exc = calculate(theory(cls), p)
        ctx.true('%s without A_s %r' % (cls, p), exc is not None, 'a spectrum without A_s')
