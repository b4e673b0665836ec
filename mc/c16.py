"""C16: the Cobaya slow-roll theories report what primpy computes for exactly their parameters."""
import itertools
import math
import warnings

import numpy as np

PID, LEVEL = 'C16', 'exploration'
TECHNIQUE = ("exhaustive enumeration of theory x parameter lattice x call histories on the real theory objects (alone and in a Cobaya model), "
             "differential oracle through primpy's other equation form")
NOTE = ("every point of the lattice is evaluated by the theory and, independently, by a background in e-folds with its own "
        "amplitude matching and dense grid; spectra, derived parameters and rejections are compared; every history of two points "
        "(thorough three) is compared with fresh objects; other parameter values are not covered")
RULE = ("theory class x potential parameters x {N_star, n_s, (w_reh, rho_reh)} x reheating x A_s; all ordered histories; non-trivial: "
        "spectra and derived parameters compared, or a rejection expected")
ASSUMPTIONS = ["supported inputs: N_star or n_s, each with at most one of rho_reh_GeV and w_reh, or w_reh with rho_reh_GeV; N_star beside n_s is the upper search bound",
               "points within a few per cent of the edge of the allowed reheating scenarios may be accepted or rejected",
               "spectra agree to 0.2 per cent, derived parameters to 1e-3 of their scale (grids of the theory are coarser)"]
CASE_TIMEOUT = 400
VAR = [('MonomialSlowRollPPS', 'MonomialPotential', dict(p=2)), ('StarobinskySlowRollPPS', 'StarobinskyPotential', {}),
       ('NaturalSlowRollPPS', 'NaturalPotential', dict(phi0=30.)), ('TmodelSlowRollPPS', 'TmodelPotential', dict(p=1, alpha=1.)),
       ('LinearSlowRollPPS', 'LinearPotential', {}), ('QuadraticSlowRollPPS', 'QuadraticPotential', {}),
       ('DoubleWell2SlowRollPPS', 'DoubleWell2Potential', dict(phi0=30.)), ('DoubleWell4SlowRollPPS', 'DoubleWell4Potential', dict(phi0=25.)),
       ('RadionGaugeSlowRollPPS', 'RadionGaugePotential', dict(p=2, alpha=2.)), ('RadionGauge2SlowRollPPS', 'RadionGauge2Potential', dict(alpha=1.)),
       ('NaturalSlowRollPPS', 'NaturalPotential', dict(phi0=12.)), ('TmodelSlowRollPPS', 'TmodelPotential', dict(p=2, alpha=.01)),
       ('MonomialSlowRollPPS', 'MonomialPotential', dict(p=2 / 3)), ('DoubleWell2SlowRollPPS', 'DoubleWell2Potential', dict(phi0=12.)),
       ('MonomialSlowRollPPS', 'MonomialPotential', dict(p=4)), ('RadionGaugeSlowRollPPS', 'RadionGaugePotential', dict(p=4, alpha=10.)),
       ('TmodelSlowRollPPS', 'TmodelPotential', dict(p=3, alpha=30.)), ('NaturalSlowRollPPS', 'NaturalPotential', dict(phi0=200.)),
       ('DoubleWell4SlowRollPPS', 'DoubleWell4Potential', dict(phi0=10.))]
MODES = [dict(N_star=55.), dict(N_star=50., rho_reh_GeV=1e9), dict(w_reh=0., rho_reh_GeV=1e9), dict(n_s='mid'),
         dict(n_s='mid', rho_reh_GeV=1e3), dict(N_star=50., w_reh=0.), dict(w_reh=0., rho_reh_GeV='near end'),
         dict(w_reh=0., rho_reh_GeV='above end'), dict(n_s='mid', w_reh=0.), dict(w_reh=1.2, rho_reh_GeV=1e6), dict(n_s=.5), dict(N_star=95.),
         dict(N_star=60., rho_reh_GeV=1e3), dict(n_s='mid', N_star=70.), dict(w_reh=.6, rho_reh_GeV=1e6), dict(w_reh=-.2, rho_reh_GeV=1e10),
         dict(n_s=1.05), dict(N_star=60., w_reh=.6), dict(N_star=30., rho_reh_GeV=1e12), dict(w_reh=-.5, rho_reh_GeV=1e6),
         dict(N_star=70., rho_reh_GeV=1e12), dict(N_star=55., rho_reh_GeV=1e-13), dict(N_star=40., rho_reh_GeV=1e2), dict(N_star=40., w_reh=.1),
         dict(n_s='mid', w_reh=.6), dict(n_s='mid', w_reh=.15, N_star=66.)]
DERIVED = ('N_star', 'N_end', 'phi_end', 'V_end', 'H_end', 'N_reh', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1',
           'A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r')


def cases(tier, seed):
    T = tier == 'thorough'
    out = []
    for i, v in enumerate(VAR):
        modes = range(len(MODES)) if T else [m for m in range(len(MODES)) if (m < 9 and (i < 10 or m < 4)) or (m + i) % 7 == 0]
        if i >= 14 and not T:
            modes = [0, 2, 8]
        for m in modes:
            for A_s in (2.1e-9, 1e-9, 5e-9) if T else (2.1e-9,) if (i + m) % 3 else (1.3e-9,):
                out.append(dict(kind='point', var=i, mode=m, A_s=A_s))
    for i in (1, 0, 3) if T else (1,):
        for first in range(6):
            out.append(dict(kind='history', var=i, first=first, depth=3 if T else 2))
    for i in (1, 2, 9) if T else (1,):
        out.append(dict(kind='model', var=i, depth=3 if T else 2))
    out.append(dict(kind='params'))
    return out


def theory(i):
    import logging
    logging.disable(logging.CRITICAL)
    import cobaya_wrapper.slowroll_pps as s
    return getattr(s, VAR[i][0])({})


def calculate(t, p):
    s = {}
    try:
        t.calculate(s, want_derived=True, **p)
    except Exception as e:
        return None, e
    return s, None


def solve_for(i, Lambda):
    """Background in e-folds on a dense grid, from ~100 e-folds before the end of inflation."""
    import primpy.potentials as pp
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.events import InflationEvent
    from primpy.initialconditions import SlowRollIC
    from primpy.solver import solve
    pot = getattr(pp, VAR[i][1])(Lambda=Lambda, **VAR[i][2])
    phi = float(pot.sr_N2phi(88.))
    eq = InflationEquationsN(K=0, potential=pot)
    ev = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
    return solve(SlowRollIC(equations=eq, phi_i=phi, N_i=0., t_i=1e5), events=ev, t_eval=np.linspace(0., 110., 11001),
                 rtol=1e-12, atol=1e-18, method='DOP853')


_mid = {}


def resolve(i, mode, A_s):
    """Replace symbolic values: n_s reached at N_star = 52; reheating just below / above the energy at the end of inflation."""
    p = dict(mode, A_s=A_s, **VAR[i][2])
    if p.get('n_s') == 'mid':
        b = reference(i, dict(A_s=A_s, N_star=52., **VAR[i][2]))
        p['n_s'] = round(float(b.n_s), 5)
    if isinstance(p.get('rho_reh_GeV'), str):
        b = reference(i, dict(A_s=A_s, w_reh=p['w_reh'], rho_reh_GeV=1e15 if VAR[i][2].get('alpha', 1) > .1 else 1e14, **VAR[i][2]))
        rho = 1.5 * b.V_end
        from primpy.units import mp_GeV, lp_iGeV
        p['rho_reh_GeV'] = float((rho * mp_GeV / lp_iGeV ** 3) ** .25 * (.93 if p['rho_reh_GeV'] == 'near end' else 1.1))
    return p


def reference(i, p):
    """The primpy background calibrated for the inputs, amplitude matched by its exact scaling with Lambda**4."""
    Lambda = 1e-3
    for it in range(12):
        b = solve_for(i, Lambda)
        calib(b, p)
        if abs(b.A_s / p['A_s'] - 1) < 1e-7:
            return b
        Lambda *= (p['A_s'] / b.A_s) ** .25
    raise RuntimeError('reference did not converge')


def calib(b, p):
    from scipy.optimize import brentq
    w, rho = p.get('w_reh'), p.get('rho_reh_GeV')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if w is not None and rho is not None:
            b.calibrate_scale_factor(calibration_method='reheating', w_reh=w, rho_reh_GeV=rho)
            return
        N = p.get('N_star', 75.)
        if p.get('n_s') is not None:
            def f(n):
                b.calibrate_scale_factor(calibration_method='N_star', N_star=n)
                return float(b.n_s) - p['n_s']
            N = brentq(f, 20., N, xtol=1e-10)
        try:
            b.calibrate_scale_factor(calibration_method='N_star', N_star=N, rho_reh_GeV=rho, w_reh=w)
        except ValueError:
            if w is None:
                raise
            # negative duration: the amplitude does not depend on it, report it through DeltaN_reh
            b.calibrate_scale_factor(calibration_method='N_star', N_star=N)
            b.w_reh, b.DeltaN_reh = w, 4 * b.DeltaN_minus1 / (1 - 3 * w)
            b._N_reh = b.N_reh = np.nan


def expectation(i, p):
    """('reject', why) / ('edge', why) / ('accept', background)."""
    from primpy.units import mp_GeV, lp_iGeV
    w, rho = p.get('w_reh'), p.get('rho_reh_GeV')
    if w is not None and (w < -1 / 3 or w >= 1):
        return 'reject', 'w_reh'
    if p.get('N_star', 0) > 92:
        return 'reject', 'N_star exceeds the total number of e-folds'
    if p.get('N_star', 0) > 80:
        return 'edge', 'N_star'
    try:
        b = reference(i, p)
    except ValueError as e:      # brentq: n_s outside the range reached for 20 <= N_star <= N_star_max
        if 'different signs' in str(e):
            return 'reject', 'n_s'
        raise
    rho_end = (1.5 * b.V_end * mp_GeV / lp_iGeV ** 3) ** .25
    if rho is not None and rho > rho_end * .97:
        return ('reject' if rho > rho_end * 1.03 else 'edge'), 'rho_reh'
    d = float(b.DeltaN_reh)
    if not math.isnan(d):
        if w is not None and rho is None and abs(b.DeltaN_minus1) < .3:
            return 'edge', 'DeltaN_reh'
        if abs(d) < .03 or abs(b.w_reh + 1 / 3) < .01 or abs(b.w_reh - 1) < .01:
            return 'edge', 'reheating'
        if d < 0 or b.w_reh <= -1 / 3 or b.w_reh >= 1:
            return 'reject', 'reheating'
        if abs(b.N_reh - b.N0) < .05:
            return 'edge', 'N_reh'
        if b.N_reh > b.N0:
            return 'reject', 'reheating ends after today'
    return 'accept', b


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['run_' + case['kind']](case, ctx)


def run_point(case, ctx):
    i = case['var']
    p = resolve(i, MODES[case['mode']], case['A_s'])
    key = '%s %r' % (VAR[i][0], sorted(p.items()))
    verdict, b = expectation(i, p)
    ctx.outcome(verdict)
    s, exc = calculate(theory(i), p)
    ctx.ev()
    if verdict == 'edge':
        return
    if verdict == 'reject':
        ctx.true(key, exc is not None, 'accepted although %s is impossible' % b)
        return
    if exc is not None:
        ctx.bad(key, 'rejected: %r' % (exc,))
        return
    check_state(ctx, key, s, b, p)
    ctx.sample = dict(case=case, point=p, derived={n: float(s['derived'][n]) for n in DERIVED})


def check_state(ctx, key, s, b, p):
    d = s['derived']
    ctx.true(key, set(DERIVED) <= set(d), 'derived parameters missing: %s' % (set(DERIVED) - set(d),))
    scale = {n: (1e-3 * abs(float(b[n])), 0.) for n in DERIVED}
    for n in ('N_end', 'N_reh', 'DeltaN_reh', 'DeltaN_minus1', 'phi_end', 'N_star'):
        scale[n] = (2e-3, 2e-4 * abs(float(b[n])))
    scale.update(n_s=(2e-4, 0), n_t=(1e-3 * abs(b.n_t) + 1e-7, 0), n_run=(.02 * abs(b.n_run) + 1e-6, 0), n_runrun=(.3 * abs(b.n_runrun) + 1.2e-4, 0),
                 A_s=(1e-5 * p['A_s'] + 1.5e-14, 0), w_reh=(1e-3 if math.isnan(b.w_reh) else 2e-3 + .01 * abs(b.w_reh), 0),
                 rho_reh_GeV=(.02 * abs(b.rho_reh_GeV), 0))
    for n in DERIVED:
        ctx.close(key + ' ' + n, float(d[n]), float(b[n]), 0., sum(scale[n]), what='derived ' + n)
    for n in ('N_star', 'w_reh', 'rho_reh_GeV', 'n_s'):                 # inputs come back
        if n in p and not (n == 'N_star' and 'n_s' in p) and not (n == 'N_star' and 'w_reh' in p and 'rho_reh_GeV' in p):
            ctx.close(key + ' input ' + n, float(d[n]), p[n], 1e-6, what='input ' + n)
    ctx.close(key + ' r', float(d['r']), float(d['A_t']) / float(d['A_s']), 1e-6, what='r = A_t/A_s')
    g = s['primordial_scalar_pk']
    ks = np.geomspace(g['kmin'], g['kmax'], len(g['Pk']))
    for name, f in (('scalar', b.P_s_approx), ('tensor', b.P_t_approx)):
        g = s['primordial_%s_pk' % name]
        ctx.true(key + ' grid', g['log_regular'] and 0 < g['kmin'] <= 1e-6 and g['kmax'] >= 10 and len(g['Pk']) > 100, 'k grid %r' % (g['kmin'],))
        P = np.asarray(g['Pk'])
        ctx.close(key + ' ' + name, P, np.asarray(f(ks)), 2e-3, what=name + ' spectrum')
    lk = np.log(ks / .05)
    ctx.close(key + ' pivot', math.exp(np.interp(0., lk, np.log(s['primordial_scalar_pk']['Pk']))), p['A_s'], 1e-3, what='P_s(k_pivot)')
    ctx.close(key + ' pivot t', math.exp(np.interp(0., lk, np.log(s['primordial_tensor_pk']['Pk']))), float(d['A_t']), 1e-3, what='P_t(k_pivot)')


def points(i):
    """Accepted and rejected points that differ in every input."""
    v = VAR[i][2]
    w = {k: x * 1.1 for k, x in v.items() if k != 'p'}
    return [dict(A_s=2.1e-9, N_star=55., **v), dict(A_s=1e-9, w_reh=0., rho_reh_GeV=1e9, **v), dict(A_s=2.1e-9, n_s=.5, **v),
            dict(A_s=2.1e-9, n_s=.963, rho_reh_GeV=1e3, **dict(v, **w)), dict(A_s=2.1e-9, w_reh=1.2, rho_reh_GeV=1e6, **v), dict(A_s=2.1e-9, N_star=95., **v)]


def same(ctx, key, s, exc, s0, exc0):
    ctx.ev()
    if (exc is None) != (exc0 is None):
        ctx.bad(key, 'accepted on its own: %s, in this history: %s' % (exc0 is None, exc is None))
        return
    if exc is not None:
        ctx.true(key, type(exc) is type(exc0), '%r instead of %r' % (exc, exc0))
        return
    for n in DERIVED:
        ctx.close(key + ' ' + n, float(s['derived'][n]), float(s0['derived'][n]), 1e-12, what='derived %s in this history' % n)
    for n in ('primordial_scalar_pk', 'primordial_tensor_pk'):
        ctx.close(key + ' ' + n, s[n]['Pk'], s0[n]['Pk'], 1e-12, what='spectrum in this history')


_fresh = {}


def fresh(i):
    if i not in _fresh:
        _fresh[i] = [calculate(theory(i), p) for p in points(i)]
    return _fresh[i]


def run_history(case, ctx):
    i = case['var']
    P, F = points(i), fresh(case['var'])
    ctx.outcome('history: accepted alone %s' % (F[case['first']][1] is None))
    for tail in itertools.product(range(len(P)), repeat=case['depth'] - 1):
        t = theory(i)
        seq = (case['first'],) + tail
        res = []
        for j in seq:
            given = dict(P[j])
            res.append(calculate(t, given))
            ctx.true('%s history %s' % (VAR[i][0], seq), given == P[j], 'inputs modified')
        for j, (s, exc) in zip(seq, res):
            same(ctx, '%s history %s' % (VAR[i][0], seq), s, exc, *F[j])
    ctx.sample = dict(case=case)


def run_model(case, ctx):
    from cobaya.likelihood import Likelihood
    from cobaya.model import get_model

    class L(Likelihood):
        def get_requirements(self):
            return {'primordial_scalar_pk': None, 'primordial_tensor_pk': None}

        def logp(self, **kw):
            return 0.

    i = case['var']
    P, F = points(i), fresh(i)
    groups = {}
    for j, p in enumerate(P):
        groups.setdefault(tuple(sorted(p)), []).append(j)
    extra = [dict(A_s=2.1e-9, N_star=50., **VAR[i][2])]
    for names, idx in sorted(groups.items()):
        pts = [P[j] for j in idx]
        ref = [F[j] for j in idx]
        if 'N_star' in names:
            pts, ref = pts + extra, ref + [calculate(theory(i), p) for p in extra]
        der = [n for n in DERIVED if n not in names]
        info = {'theory': {'pps': {'external': type(theory(i))}}, 'likelihood': {'l': {'external': L}}, 'debug': 50,
                'params': dict({n: {'prior': {'min': -1e20, 'max': 1e20}} for n in names}, **{n: {'derived': True} for n in der})}
        m = get_model(info)
        order = list(m.parameterization.derived_params())
        for seq in itertools.product(range(len(pts)), repeat=case['depth']):
            for j in seq:
                key = '%s model %s %s' % (VAR[i][0], '+'.join(names), seq)
                lp = m.logposterior(pts[j], cached=True)
                s0, exc0 = ref[j]
                ctx.outcome('model')
                if exc0 is not None:
                    ctx.true(key, lp.logpost == -np.inf, 'failing point not rejected')
                elif lp.loglikes.tolist() != [0.]:
                    ctx.bad(key, 'working point rejected')
                else:
                    got = dict(zip(order, lp.derived))
                    for n in der:
                        ctx.close(key + ' ' + n, float(got[n]), float(s0['derived'][n]), 1e-12, what='derived %s' % n)
                    for n, v in (('primordial_scalar_pk', m.provider.get_primordial_scalar_pk()), ('primordial_tensor_pk', m.provider.get_primordial_tensor_pk())):
                        ctx.close(key + ' ' + n, v['Pk'], s0[n]['Pk'], 1e-12, what=n)
    ctx.sample = dict(case=case)


def run_params(case, ctx):
    """Declared parameters and derived parameters are those the theories work with."""
    for i in range(len(VAR)):
        t = theory(i)
        ctx.true('%s params' % VAR[i][0], {'A_s', 'n_s', 'N_star', 'rho_reh_GeV', 'w_reh'} | set(VAR[i][2]) <= set(t.get_can_support_params()), 'unsupported input')
        ctx.true('%s derived' % VAR[i][0], set(DERIVED) <= set(t.get_can_provide_params()), 'derived parameter not provided')
    for i in (0, 2, 3):
        for p in ({'N_star': 55.}, {'A_s': 2.1e-9, 'N_star': 55.}):
            q = dict(p) if 'A_s' in p else dict(p, **VAR[i][2])
            s, exc = calculate(theory(i), q)
            ctx.true('%s incomplete %r' % (VAR[i][0], q), exc is not None, 'accepted without A_s or potential parameters')
