"""C11: approximate spectra = their expansions, validated against exact spectra; derived parameters; set_ns."""
import math
import warnings

import mpmath as mp
import numpy as np
from scipy import interpolate
from scipy.special import gammaln

from mc import pots, slowroll as S
from mc.c04 import M, ddN, flow, vcoef

PID, LEVEL = 'C11', 'exploration'
TECHNIQUE = ("exhaustive exploration of method x order x configuration on the real code, against expansions whose convergence to "
             "exact mode solutions is established by the same check, and against exact spectra of the same backgrounds")
NOTE = ("for every method and order of every configuration the public spectra are compared on a lattice of wavenumbers with the "
        "expansion in flow parameters computed from the state in 40 digits; the expansions are an oracle because they are shown, "
        "in the 'order' cases, to converge to integrated mode equations with exactly the claimed order")
RULE = ("background x K x {t, N} x calibration x method x order x wavenumber node x {scalar, tensor}; non-trivial: both spectra "
        "positive and the flow parameters finite there")
ASSUMPTIONS = ["wavenumbers between the solution's steps are interpolation and are not compared",
               "flow parameters at the pivot may be interpolated linearly between the solution's steps (the difference to cubic "
               "interpolation is added to the tolerance)"]
CASE_TIMEOUT = 500
METHODS = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('LLMS', 2), ('STE', 2), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)]

# name -> (potential, kwargs, reference kwargs, N_i, phi_i)
CFG = {'staro': ('StarobinskyPotential', dict(Lambda=3.3e-3), {}, 14., 6.5),
       'quad': ('QuadraticPotential', dict(Lambda=0.0025), dict(p=2), 12., 17.),
       'quartic': ('QuarticPotential', dict(Lambda=0.0006), dict(p=4), 12., 24.),
       'natural': ('NaturalPotential', dict(Lambda=0.0055, phi0=50.), dict(phi0=50.), 12., 18.),
       'hill': ('DoubleWell2Potential', dict(Lambda=0.005, phi0=30.), dict(phi0=30., p=2), 12., 17.)}
BASIC = list(CFG)
# the same, integrated until after the end of inflation
CFG.update({c + '>': CFG[c] for c in ('staro', 'quad', 'natural')})
BASES = [(.3, .5, .4, .3), (.5, -.4, .6, 0.), (.01, .8, .7, .2), (.4, 0., 0., 0.), (.2, .3, -.8, .5)]


def cases(tier, seed):
    T = tier == 'thorough'
    out = [dict(kind='order', base=b, scalar=s) for b in BASES for s in (True, False)]
    cfgs = [('staro', 0, 'T'), ('staro', 1, 'N'), ('staro', -1, 'T'), ('quad', 0, 'N'), ('quad', 1, 'T'), ('quad', -1, 'N'),
            ('natural', 0, 'N'), ('quartic', 0, 'T'), ('quartic', 1, 'N'), ('hill', 0, 'T'), ('quad>', 0, 'T'), ('staro>', 1, 'N'), ('natural>', -1, 'T')]
    if T:
        cfgs = [(c, K, f) for c in CFG for K in (-1, 0, 1) for f in 'TN']
    for c, K, f in cfgs:
        for cal in cals(K, T):
            out.append(dict(kind='formula', cfg=c, K=K, form=f, cal=cal))
            out.append(dict(kind='derived', cfg=c, K=K, form=f, cal=cal))
    for c in BASIC + ['quad>']:
        for Ns in ((50., 35., 62.) if T else (50.,)):
            out.append(dict(kind='exact', cfg=c, N_star=Ns))
    for K in (-1, 0, 1):
        for c in (CFG if T else ('staro', 'quad', 'natural>')):
            out.append(dict(kind='forms', cfg=c, K=K))
    for lam in ((0.02, 0.1, 0.2, 0.35) if T else (0.1, 0.25)):
        for f in 'TN':
            out.append(dict(kind='powerlaw', lam=lam, form=f))
    for c in BASIC + ['staro>']:
        out.append(dict(kind='setns', cfg=c, form='T' if T or c != 'quad' else 'N'))
    return out


def cals(K, T):
    if K == 0:
        return [dict(N_star=50.), dict(calibration_method='reheating')] + ([dict(N_star=30., rho_reh_GeV=1e9)] if T else [])
    return [dict(Omega_K0=-K * 0.01, h=0.7)] + ([dict(Omega_K0=-K * 1e-6, h=0.6), dict(calibration_method='reheating', h=0.7)]
                                               if T else [])


def solution(cfg, K, form, n=900, rtol=1e-12):
    import primpy.potentials as pp
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.initialconditions import InflationStartIC
    from primpy.events import InflationEvent, AfterInflationEndEvent
    from primpy.solver import solve
    name, kw, _, N_i, phi_i = CFG[cfg]
    past = cfg.endswith('>')
    pot = getattr(pp, name)(**kw)
    eq = (InflationEquationsT if form == 'T' else InflationEquationsN)(K, pot)
    ev = lambda: ([InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=not past)]
                  + [AfterInflationEndEvent(eq)] * past)
    opt = dict(rtol=rtol, atol=1e-16, method='DOP853')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sol = solve(InflationStartIC(eq, phi_i=phi_i, N_i=N_i, t_i=7e4), events=ev(), **opt)
        if n:
            x = np.interp(np.linspace(sol._N[0], sol._N[-1], n), sol._N, sol.x)
            x[-1] = sol.x[-1]
            sol = solve(InflationStartIC(eq, phi_i=phi_i, N_i=N_i, t_i=7e4, x_end=sol.x[-1] * (1 + 1e-9)), events=ev(),
                        t_eval=x, **opt)
    return sol, eq, pot


def flows(sol, K, form, i, vref):
    """(H, e1, e2, e3, e4, d1, d2, d3, E2, E3) at grid point i, from the state by a power series in 40 digits."""
    H = float(sol.H[i])
    phi = float(sol.phi[i])
    pd = float(sol.dphidt[i]) if form == 'T' else float(sol.dphidN[i]) * H
    NN, ph, Hj = flow(vref(phi), float(sol._N[i]), phi, pd, K)
    e1 = -Hj.deriv() / (Hj * Hj).trunc(M - 1)
    es = [e1]
    for _ in range(3):
        p = ddN(es[-1], Hj)
        es.append(p / es[-1].trunc(p.n))
    h, p1 = Hj.c[0], ph.c[1]
    d = [ph.d(n + 1) / (h ** n * p1) for n in (1, 2, 3)]
    E2 = ddN(e1, Hj).c[0]
    E3 = e1.deriv().deriv().c[0] / h ** 2
    return tuple(float(x) for x in [h] + [e.c[0] for e in es] + d + [E2, E3])


def vref(cfg, pot):
    name, kw, ref, _, _ = CFG[cfg]
    V = pots.reference(name)
    return lambda phi: vcoef(V, ref, phi, kw['Lambda'], M + 1)


def spectra_ref(method, order, F, Fs, x):
    """(P_s, P_t, P_s with e4=0, P_t with e4=0)."""
    h, e1, e2, e3, e4, d1, d2, d3, E2, E3 = F
    if method == 'CGS':
        return [h ** 2 / (8 * np.pi ** 2 * e1) * S.cgs_s(order, e1, e2, d1, d2, d3),
                2 * h ** 2 / np.pi ** 2 * S.cgs_t(order, e1, e2, E2, E3)]
    if method == 'STE':
        return [h ** 2 / (8 * np.pi ** 2 * e1) * S.ste_s(e1, e2, e3), 2 * h ** 2 / np.pi ** 2 * S.ste_t(e1, e2, e3)]
    h, e1, e2, e3, e4 = Fs[:5]
    Ps, Pt = h ** 2 / (8 * np.pi ** 2 * e1), 2 * h ** 2 / np.pi ** 2
    if method == 'LLMS':
        return [Ps * math.exp(S.llms_s(e1, e2, e3, x)), Pt * math.exp(S.llms_t(e1, e2, e3, x))]
    return [Ps * S.arbds(order, e1, e2, e3, e4, x, 's'), Pt * S.arbds(order, e1, e2, e3, e4, x, 't'),
            Ps * S.arbds(order, e1, e2, e3, 0., x, 's'), Pt * S.arbds(order, e1, e2, e3, 0., x, 't')]


def run(case, ctx):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()['run_' + case['kind']](case, ctx)


def run_order(case, ctx):
    """The reference expansions converge to the integrated mode equation with the claimed order (binds the oracle)."""
    sc = case['scalar']
    err = {}
    sizes = (.08, .04)
    for s in sizes:
        e = [s * b for b in case['base']]
        ex = S.exact_flow(*e, sc)
        d = S.deltas(*e)
        e1, e2, e3, e4 = e
        E2, E3 = e1 * e2, -e1 ** 2 * e2 + e1 * e2 ** 2 + e1 * e2 * e3
        r = {('CGS', o): S.cgs_s(o, e1, e2, *d) if sc else S.cgs_t(o, e1, e2, E2, E3) for o in range(4)}
        for o in (1, 2, 3):
            r['ARBDS', o] = S.arbds(o, *e, 0., 's' if sc else 't')
        r['STE', 2] = (S.ste_s if sc else S.ste_t)(e1, e2, e3)
        r['LLMS', 2] = math.exp((S.llms_s if sc else S.llms_t)(e1, e2, e3, 0.))
        for k in r:
            err[k, s] = abs(r[k] - ex) / s ** (k[1] + 1)
    for (m, o), s in err:
        ctx.true(f"order:{case['base']}:{sc}:{m}{o}:{s}", err[(m, o), s] < 1.5,
                 f'reference expansion is {err[(m, o), s]:.3g} s^{o + 1} away from the exact spectrum at s={s}')
    ctx.outcome('reference validated')


def run_formula(case, ctx):
    c, K, form, cal = case['cfg'], case['K'], case['form'], case['cal']
    key = f"{c}:K={K}:{form}:" + ','.join(f'{k}={v}' for k, v in cal.items())
    sol, eq, pot = solution(c, K, form)
    sol.calibrate_scale_factor(**cal)
    vr = vref(c, pot)
    from primpy.parameters import K_STAR
    a0_Mpc = sol.a0_Mpc
    lk = sol._logaH - np.log(a0_Mpc)
    j = int(np.searchsorted(sol._N, sol._N_cross))
    fl = {i: flows(sol, K, form, i, vr) for i in range(j - 2, j + 2)}
    t = (sol._N_cross - sol._N[j - 1]) / (sol._N[j] - sol._N[j - 1])
    lin = [(1 - t) * a + t * b for a, b in zip(fl[j - 1], fl[j])]
    cub = []
    Nn = sol._N[j - 2:j + 2]
    for q in range(10):
        L = 0.
        for a in range(4):
            L += fl[j - 2 + a][q] * np.prod([(sol._N_cross - Nn[b]) / (Nn[a] - Nn[b]) for b in range(4) if b != a])
        cub.append(L)
    ok = np.flatnonzero((sol._N > sol._N_beg + 1.5) & (sol._N < sol._N_end - 1.))
    nodes = sorted(set(ok[np.linspace(0, ok.size - 1, 40 if ctx.tier == 'thorough' else 14).astype(int)]) | {j - 1, j})
    for i in nodes:
        F = fl.get(i) or flows(sol, K, form, i, vr)
        k = float(np.exp(lk[i]))
        x = float(lk[i] - np.log(K_STAR))
        for m, o in METHODS:
            want, alt = spectra_ref(m, o, F, lin, x), spectra_ref(m, o, F, cub, x)
            got = [float(sol.P_s_approx(k, method=m, order=o)), float(sol.P_t_approx(k, method=m, order=o))]
            for n, sp in enumerate('st'):
                if not (want[0] > 0 and want[1] > 0 and min(alt) > 0 and min(want) > 0):
                    ctx.outcome('expansion not positive')
                    continue
                tol = 2e-6 * abs(want[n]) + 2 * abs(want[n] - alt[n])
                kk = f'formula:{key}:x={x:.4g}:P_{sp}_{m}{o}'
                if m == 'ARBDS' and o == 3:
                    d, d0 = abs(got[n] - want[n]), abs(got[n] - want[2 + n])
                    if d > tol and d0 <= tol and abs(want[n] - want[2 + n]) > tol:
                        ctx.bad(f'formula:P_{sp}_ARBDS3 takes epsilon_4=0', f'{kk}: {got[n]!r}, want {want[n]!r} ({want[2+n]!r} without)')
                    else:
                        ctx.true(kk, min(d, d0) <= tol, f'got {got[n]!r}, want {want[n]!r} (or {want[2 + n]!r} without epsilon_4)')
                else:
                    ctx.close(kk, got[n], want[n], 0, tol, f'P_{sp} {m} order {o}')
        ctx.outcome('node')


def local_poly(f, lk0, h, n=5):
    """ln f and derivatives at lk0 from points of one interval."""
    x = np.linspace(-1, 1, n)
    y = np.log([float(f(float(np.exp(lk0 + h * a)))) for a in x])
    c = np.polynomial.polynomial.polyfit(x, y, 3)
    return [c[0], c[1] / h, 2 * c[2] / h ** 2, 6 * c[3] / h ** 3]


def run_derived(case, ctx):
    from primpy.parameters import K_STAR
    c, K, form, cal = case['cfg'], case['K'], case['form'], case['cal']
    key = f"derived:{c}:K={K}:{form}:" + ','.join(f'{k}={v}' for k, v in cal.items())
    sol, eq, pot = solution(c, K, form, n=160)
    first = {}
    for m, o in METHODS:
        for via in ('calibrate', 'derive'):
            sol.calibrate_scale_factor(**cal, **(dict(method=m, order=o) if via == 'calibrate' else {}))
            if via == 'derive':
                sol.derive_approx_power(method=m, order=o)
            lk = np.sort(sol.logk)
            j = int(np.searchsorted(lk, np.log(K_STAR)))
            h = 0.9 * min(np.log(K_STAR) - lk[j - 1], lk[j] - np.log(K_STAR))
            kk = f'{key}:{m}{o}:{via}'
            if h < 1e-4 * (lk[j] - lk[j - 1]):
                ctx.outcome('pivot at a node')
                continue
            for sp in 'st':
                f = sol['P_s_approx' if sp == 's' else 'P_t_approx']
                d = local_poly(lambda k: f(k, method=m, order=o), np.log(K_STAR), h)
                g = local_poly(lambda k: f(k, method='derived'), np.log(K_STAR), h)   # the one currently derived
                ctx.close(f'{kk}:{sp}:current', g[:2], d[:2], 1e-9, 1e-9, 'the derived spectrum is the requested one')
                A, n1 = ('A_s', 'n_s') if sp == 's' else ('A_t', 'n_t')
                ctx.close(f'{kk}:{A}', float(sol[A]), float(np.exp(d[0])), 1e-9, 0, A)
                ctx.close(f'{kk}:{n1}', float(sol[n1]), d[1] + (sp == 's'), 0, 1e-8 + 1e-13 / h, n1)
                if sp == 's':
                    ctx.close(f'{kk}:n_run', float(sol.n_run), d[2], 1e-6, 1e-8 + 1e-12 / h ** 2, 'n_run')
                    ctx.close(f'{kk}:n_runrun', float(sol.n_runrun), d[3], 1e-6, 1e-7 + 1e-11 / h ** 3, 'n_runrun')
            ctx.close(f'{kk}:r', float(sol.r), float(sol.A_t / sol.A_s), 1e-12, 0, 'r')
            # whichever is the derived one, every other can be asked for and is the same
            ks = np.exp(lk[[5, j, -5]])
            for mo in METHODS:
                got = [np.array(sol[f](ks, method=mo[0], order=mo[1])) for f in ('P_s_approx', 'P_t_approx')]
                if mo not in first:
                    first[mo] = got
                ctx.close(f'{kk}:asked for {mo[0]}{mo[1]}', got, first[mo], 1e-10, 0, 'spectrum while another is the derived one')
            for n, f in (('P_scalar_approx', 'P_s_approx'), ('P_tensor_approx', 'P_t_approx')):
                P = np.asarray(sol[n])
                ctx.true(f'{kk}:{n}:shape', P.shape == sol.logk.shape, f'{n} has shape {P.shape}, logk {sol.logk.shape}')
                q = (P > 0) & (sol.P_scalar_approx > 0) & (sol.P_tensor_approx > 0)
                ctx.close(f'{kk}:{n}', P[q], sol[f](np.exp(sol.logk[q]), method=m, order=o), 1e-9, 0, n)
            ctx.outcome('derived')
    run_interp(sol, key.replace('derived', 'interp'), ctx)
    # one wavenumber at a time or many at once, in any order and shape
    lk = np.sort(sol.logk)
    ks = np.exp(np.linspace(lk[3], lk[-4], 200))
    for m, o in METHODS + [('derived', None)]:
        for f in ('P_s_approx', 'P_t_approx'):
            kw = dict(method=m) if o is None else dict(method=m, order=o)
            one = np.array([float(sol[f](float(k), **kw)) for k in ks])
            kk = f'{key}:{m}{o}:{f}'
            for w, x, want in (('all', ks, one), ('reversed', ks[::-1], one[::-1]), ('shuffled', ks[np.arange(200) * 77 % 200], one[np.arange(200) * 77 % 200]),
                               ('one', ks[7:8], one[7:8]), ('strided', ks[::9], one[::9]), ('repeated', ks[[5, 5, 90, 5]], one[[5, 5, 90, 5]])):
                given = np.array(x)
                ctx.close(f'{kk}:{w}', sol[f](x, **kw), want, 1e-12, 0, 'many wavenumbers at once')
                ctx.true(f'{kk}:{w}:input', np.array_equal(x, given), 'the wavenumbers were changed')


def run_interp(sol, key, ctx):
    """Interpolation arguments: order 5, extrapolation, constant outside by default, an error on request."""
    for m, o in METHODS:
        sol.derive_approx_power(method=m, order=o)
        q = (sol.P_scalar_approx > 0) & (sol.P_tensor_approx > 0)
        x, u = np.unique(sol.logk[q], return_index=True)
        if x.size < 20:
            continue
        i = np.linspace(4, x.size - 6, 6).astype(int)
        mid = (x[i] + x[i + 1]) / 2
        out = np.array([x[0] - .2, x[-1] + .2])
        kk = f'{key}:{m}{o}'
        Y = dict(P_s_approx=np.log(sol.P_scalar_approx[q][u]), P_t_approx=np.log(sol.P_tensor_approx[q][u]))
        for f, y in Y.items():
            ref = interpolate.InterpolatedUnivariateSpline(x, y, k=3)
            ask = lambda at, **kw: np.log(sol[f](np.exp(at), method=m, order=o, **kw))
            ctx.close(f'{kk}:{f}:between', ask(mid), ref(mid), 1e-7, 0, 'interpolation')
            ctx.close(f'{kk}:{f}:outside', ask(out), y[[0, -1]], 1e-9, 1e-9, 'constant outside by default')
            ctx.close(f'{kk}:{f}:extrapolate', ask(out, ext='extrapolate'), ref(out), 1e-5, 1e-5, 'extrapolation')
            try:
                ask(out, ext='raise')
                ctx.bad(f'{kk}:{f}:raise', 'no error outside the range')
            except ValueError:
                ctx.ev()
        sol.derive_approx_power(method=m, order=o, k=5)
        for (f, y), g in zip(Y.items(), ('logk2logP_s', 'logk2logP_t')):
            ref = interpolate.InterpolatedUnivariateSpline(x, y, k=5)
            ctx.close(f'{kk}:{f}:k=5', sol[g](mid), ref(mid), 1e-7, 0, 'interpolation of order 5')
            ctx.close(f'{kk}:{f}:k=5:asked', np.log(sol[f](np.exp(mid), method=m, order=o)), sol[g](mid), 1e-10, 0, 'the derived spectrum')


def neglected(m, o):
    return o + 1


def run_exact(case, ctx):
    """Spectra of real flat backgrounds against the integrated mode equations."""
    c, Ns = case['cfg'], case['N_star']
    sol, eq, pot = solution(c, 0, 'T', n=2500)
    sol.calibrate_scale_factor(N_star=Ns)
    vr = vref(c, pot)
    name, kw, ref, _, _ = CFG[c]
    from primpy.parameters import K_STAR
    for dx in ((-3., 0., 4.) if ctx.tier == 'thorough' else (0., 2.)):
        i = int(np.argmin(np.abs(sol._N - (sol._N_cross + dx))))
        if sol._N[i] - sol._N_beg < 9.5:
            ctx.outcome('crossing too early for the vacuum')
            continue
        F = flows(sol, 0, 'T', i, vr)
        k = float(np.exp(sol._logaH[i] - np.log(sol.a0_Mpc)))
        x = float(np.log(k / K_STAR))
        s = max(abs(F[1]), abs(F[2]), abs(F[3]), abs(F[4]))
        # background in N by integration from the node, both ways, independent of the solution's steps
        phi0, p0 = float(sol.phi[i]), float(sol.dphidt[i] / sol.H[i])
        dl = lambda f: float(pot.dV(f) / pot.V(f))

        def rhs(N, y):
            e = y[1] ** 2 / 2
            return [y[1], -(3 - e) * (y[1] + dl(y[0]))]
        def flow2(N, y):
            return y[1] ** 2 / 2, -2 * (3 - y[1] ** 2 / 2) * (y[1] + dl(y[0])) / y[1]
        for sp, sc in (('s', True), ('t', False)):
            P0 = F[0] ** 2 / (8 * np.pi ** 2 * F[1]) if sc else 2 * F[0] ** 2 / np.pi ** 2
            try:
                ex = P0 * S.exact([phi0, p0], rhs, flow2, sc)
            except S.NoVacuum:      # the background is not slowly rolling yet where the reference has to start
                ctx.outcome('no reference vacuum')
                continue
            for m, o in METHODS:
                got = float(sol['P_s_approx' if sc else 'P_t_approx'](k, method=m, order=o))
                # expansions about the pivot are compared near it only
                # a truncated d2, d3 in low CGS orders is of the neglected order or beyond
                y = max(1., abs(x)) if m in ('LLMS', 'ARBDS') else 1.
                tol = 8 * (s * y) ** neglected(m, o) + 3e-6
                ctx.true(f'exact:{c}:N_star={Ns}:dx={dx}:P_{sp}_{m}{o}', abs(np.log(got / ex)) <= tol,
                         f'{got!r} differs from the exact {ex!r} by {abs(np.log(got / ex)):.3g}, neglected order {tol:.3g}')
        ctx.outcome('compared with exact')


def run_forms(case, ctx):
    c, K = case['cfg'], case['K']
    res = {}
    for form in 'TN':
        sol, eq, pot = solution(c, K, form)
        cal = dict(N_star=50.) if K == 0 else dict(Omega_K0=-K * 0.01, h=0.7)
        sol.calibrate_scale_factor(**cal)
        ks = np.logspace(-2, 0, 7)
        res[form] = [np.array([float(sol[x]) for x in ('A_s', 'A_t', 'n_s', 'n_t', 'r')])]
        res[form] += [sol[f](ks, method=m, order=o) for m, o in METHODS for f in ('P_s_approx', 'P_t_approx')]
    for i, (a, b) in enumerate(zip(res['T'], res['N'])):
        ctx.close(f'forms:{c}:K={K}:{i}', np.asarray(a), np.asarray(b), 2e-5, 1e-6 if i == 0 else 0, 'time vs e-folds')
    ctx.outcome('forms')


def run_powerlaw(case, ctx):
    """Power-law inflation: V ~ exp(lam phi), every spectrum has a closed form; it ends at a kink far from the pivot."""
    from primpy.potentials import InflationaryPotential
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.events import InflationEvent
    from primpy.solver import solve
    from mc.bg import raw_ic
    lam, form = case['lam'], case['form']
    e = lam ** 2 / 2
    L4 = 1e-10

    class Exp(InflationaryPotential):
        tag, name, tex = 'exp', 'Exp', 'Exp'
        perturbation_kwargs = {}

        def get_epsilon_1V(self, *a, **k):
            return e

        def V(self, phi):
            return L4 * np.where(np.asarray(phi) > 0, np.exp(lam * phi), np.exp(9. * np.minimum(phi, 0)))

        def dV(self, phi):
            return L4 * np.where(np.asarray(phi) > 0, lam * np.exp(lam * phi), 9 * np.exp(9. * np.minimum(phi, 0)))

        def d2V(self, phi):
            return L4 * lam ** 2 * np.exp(lam * phi)

        def d3V(self, phi):
            return L4 * lam ** 3 * np.exp(lam * phi)

        def d4V(self, phi):
            return L4 * lam ** 4 * np.exp(lam * phi)

        def inv_V(self, V):
            return np.log(V / L4) / lam

        def sr_phi2N(self, *a, **k):
            return None

        def sr_phi_end(self):
            return 0.

        def sr_N2phi(self, N):
            return None

        def sr_Nstar2ns(self, N):
            return None

        def sr_Nstar2r(self, N):
            return None
    Exp.__abstractmethods__ = frozenset()
    pot = Exp.__new__(Exp)
    pot.Lambda, pot.A_s = L4 ** 0.25, None
    eq = (InflationEquationsT if form == 'T' else InflationEquationsN)(0, pot)
    phi0 = lam * 75.
    H = np.sqrt(L4 * np.exp(lam * phi0) / (3 - e))
    ic = raw_ic(eq, {'phi': phi0, 'dphidt': -lam * H, 'dphidN': -lam, '_N': 10.}, 1e3 if form == 'T' else 10., 1e300)
    sol = solve(ic, events=[InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)],
                rtol=1e-12, atol=1e-18 if form == 'T' else 1e-14, method='DOP853',
                max_step=np.inf if form == 'T' else 0.2)
    if form == 'T':
        x = np.interp(np.linspace(sol._N[0], sol._N[-1], 600), sol._N, sol.x)
        x[-1] = sol.x[-1]
        ic.x_end = sol.x[-1] * (1 + 1e-9)
        sol = solve(ic, events=[InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)],
                    rtol=1e-12, atol=1e-18, method='DOP853', t_eval=x)
    nu = 1.5 + e / (1 - e)
    corr = 2 ** (2 * nu - 3) * math.exp(2 * (gammaln(nu) - gammaln(1.5))) * (1 - e) ** (2 * nu - 1)
    for Ns in (30., 45.):
        sol.calibrate_scale_factor(N_star=Ns)
        m = sol.inflation_mask
        sel = np.flatnonzero((sol._N > sol._N[0] + 1) & (sol.phi > lam * 3))
        for i in sel[:: max(1, sel.size // 12)]:
            k = float(np.exp(sol._logaH[i] - np.log(sol.a0_Mpc)))
            Hi = float(sol.H[i])
            for mth, o in METHODS:
                x = np.log(k / 0.05)
                y = max(1., abs(x)) if mth in ('LLMS', 'ARBDS') else 1.
                if mth == 'ARBDS' and e * y > 0.05:
                    continue   # its polynomial in ln k does not converge this far from the pivot
                tol = (5 * (e * y) ** (o + 1) if mth != 'LLMS' else 5 * e ** 3 * y) + 1e-5
                for sp, P0 in (('s', Hi ** 2 / (8 * np.pi ** 2 * e)), ('t', 2 * Hi ** 2 / np.pi ** 2)):
                    try:
                        got = float(sol[f'P_{sp}_approx'](k, method=mth, order=o))
                    except (IndexError, ValueError):
                        got = np.nan
                    if np.isnan(got) and mth != 'CGS':
                        ctx.outcome('epsilon_3=0/0')   # epsilon_2 vanishes identically here
                        continue
                    ctx.true(f'powerlaw:lam={lam}:{form}:N_star={Ns}:k={k:.3g}:P_{sp}_{mth}{o}',
                             abs(np.log(got / (P0 * corr))) <= tol,
                             f'{got!r} vs closed form {P0 * corr!r}, allowed {tol:.2g}')
        ctx.close(f'powerlaw:lam={lam}:{form}:N_star={Ns}:r', float(sol.r), 16 * e, 1e-6, 0, 'r')
        ctx.close(f'powerlaw:lam={lam}:{form}:N_star={Ns}:n_s', float(sol.n_s) - 1, -2 * e / (1 - e), 1e-4, 1e-7, 'n_s-1')
        ctx.close(f'powerlaw:lam={lam}:{form}:N_star={Ns}:n_t', float(sol.n_t), -2 * e / (1 - e), 1e-4, 1e-7, 'n_t')
        ctx.outcome('powerlaw')


def run_setns(case, ctx):
    from primpy.exceptionhandling import PrimpyError
    c, form = case['cfg'], case['form']
    sol, eq, pot = solution(c, 0, form, n=300)
    N1 = min(90., 0.9 * float(sol.N_tot))
    ns = {}
    for N in np.linspace(20, N1, 8):
        sol.calibrate_scale_factor(N_star=float(N))
        ns[float(N)] = float(sol.n_s)
    grid = sorted(ns)
    for a, b in zip(grid, grid[1:]):
        for t in (0.2, 0.7):
            tgt = ns[a] + t * (ns[b] - ns[a])
            for rho in (None, 1e9):
                key = f'setns:{c}:{form}:{tgt:.6f}:{rho}'
                sol.set_ns(tgt, N_star_min=20, N_star_max=N1, rho_reh_GeV=rho)
                ctx.close(key, float(sol.n_s), tgt, 0, 1e-9, 'n_s')
                ctx.true(key + ':N_star', min(ns) - 1e-6 <= sol.N_star <= N1 + 1e-6, f'N_star={sol.N_star}')
                ctx.true(key + ':rho', (np.isnan(sol.rho_reh_GeV) if rho is None else sol.rho_reh_GeV == rho), f'{sol.rho_reh_GeV}')
    for tgt in (min(ns.values()) - 0.05, max(ns.values()) + 0.05):
        try:
            sol.set_ns(tgt, N_star_min=20, N_star_max=N1)
            ctx.bad(f'setns:{c}:{form}:unreachable {tgt:.4f}', f'no error, n_s={sol.n_s}')
        except PrimpyError:
            ctx.outcome('unreachable reported')
        except Exception as ex:
            ctx.bad(f'setns:{c}:{form}:unreachable {tgt:.4f}', f'{type(ex).__name__}: {ex}')
    for K in (-1, 1):
        s2, _, _ = solution(c, K, form, n=0, rtol=1e-8)
        s2.calibrate_scale_factor(Omega_K0=-K * 0.01, h=0.7)
        try:
            s2.set_ns(0.96)
            ctx.bad(f'setns:{c}:K={K}', 'no error')
        except PrimpyError:
            ctx.ev()
        except Exception as ex:
            ctx.bad(f'setns:{c}:K={K}', f'{type(ex).__name__}: {ex}')
    ctx.outcome('setns')
