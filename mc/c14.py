"""C14: the Big Bang helpers describe one consistent standard cosmology."""
import itertools
import math
import warnings

import mpmath as mp
import numpy as np
import scipy.constants as sc

PID, LEVEL = 'C14', 'exploration'
TECHNIQUE = "exhaustive enumeration of a parameter lattice on the real functions against the Friedmann equation, its roots and its integral"
NOTE = ("every combination of the lattice of h, Omega_m0, Omega_K0, e-folds, units and container is executed; the oracle recomputes units "
        "and radiation from CODATA constants, classifies the universe by the real roots of H(a)^2 and integrates 1/(aH) by composite "
        "Gauss-Legendre quadrature; other parameter values and parameters within 1e-6 of a dividing line are not covered")
RULE = ("h x Omega_m0 x Omega_K0 x N x units x {float, 1-d, 2-d array}; all ordered (start, end) pairs for conformal time; "
        "inflation configurations for the conformal time ratio; non-trivial: a finite value was compared or an error was expected")
ASSUMPTIONS = ["flat universes use a0=1 in any unit", "conformal time is accurate to the absolute tolerance of scipy quad (1.5e-8)", "T_CMB = 2.72548 K, N_eff = 3.044, z_BBN = 1e9, k_* = 0.05/Mpc",
               "recollapse and no-Big-Bang classification neglects radiation, as the documented dividing lines do"]

lp = math.sqrt(8 * math.pi * sc.G * sc.hbar / sc.c ** 3)
tp = lp / sc.c
mpl = math.sqrt(sc.hbar * sc.c / 8 / math.pi / sc.G)
Mpc = 1e6 * sc.parsec
HS = (0.3, 0.5, 0.6766, 0.7, 0.9, 1.0)
OM = (0., 0.05, 0.3, 0.4999, 0.5, 0.5001, 0.9, 0.9999, 1., 1.0001, 1.5, 3.)
OK_ = (-2., -0.5, -0.15, -0.01, -1e-4, -1e-9, 0., 0, 1e-9, 1e-4, 0.01, 0.15, 0.5, 0.9, 1.2)
DN = (-75., -60., -40., -20., -10., -8., -5., -2., -1., -0.3, -1e-6, 0., 1e-6, 0.5, 2., 6.)


def H0of(h, units):
    s = h * 1e5 / Mpc
    return {'planck': s * tp, 'SI': s, 'H0': 100 * h}[units]


def omega_r(h):
    u = math.pi ** 2 / 15 * (sc.k * 2.72548) ** 4 / (sc.hbar * sc.c) ** 3        # photons, J/m^3
    rho = u * (1 + 3.044 * 7 / 8 * (4 / 11) ** (4 / 3)) / sc.c ** 2
    return rho / (3 * H0of(h, 'SI') ** 2 / (8 * math.pi * sc.G))


def a0of(h, OK, units='planck'):
    if OK == 0:
        return 1.
    return 1 / (H0of(h, 'planck') * math.sqrt(abs(OK))) * {'planck': 1., 'SI': lp, 'Mpc': lp / Mpc}[units]


def classify(Om, OL):
    """'no bang' / 'recollapse' / 'expanding' from the zeros of Om y^3 + (1-Om-OL) y^2 + OL, y = a0/a."""
    with mp.workdps(40):
        Om, OL = mp.mpf(Om), mp.mpf(OL)
        co = [Om, 1 - Om - OL, mp.mpf(0), OL]
        while co and co[0] == 0:
            co = co[1:]
        if len(co) < 2:
            r = []
        else:
            r = [z for z in mp.polyroots(co, maxsteps=500, extraprec=400)]
        r = [z.real for z in r if abs(z.imag) < mp.mpf(10) ** -15]
        if any(y > 1 for y in r):
            return 'no bang'
        if any(0 < y < 1 for y in r):
            return 'recollapse'
        return 'expanding'


def stable_class(Om, OL, eps=1e-6):
    k = {classify(Om, OL), classify(Om, OL - eps), classify(Om, OL + eps)}
    return k.pop() if len(k) == 1 else None


def E2(x, Om, OK, h):
    """(H/H0)^2 and the sum of the magnitudes of its terms at x = N - N0."""
    Or = omega_r(h)
    OL = 1 - Or - Om - OK
    t = [Or * np.exp(-4 * x), Om * np.exp(-3 * x), OK * np.exp(-2 * x), OL + 0 * x]
    return sum(t), sum(abs(i) for i in t)


GLX, GLW = np.polynomial.legendre.leggauss(24)


def eta_of(x1, x2, Om, OK, h):
    n = max(1, int(math.ceil(abs(x2 - x1) / 0.25)))
    e = np.linspace(x1, x2, n + 1)
    mid, half = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    x = mid[:, None] + half[:, None] * GLX
    f = np.exp(-x) / np.sqrt(E2(x, Om, OK, h)[0])
    return float(np.sum(half[:, None] * GLW * f)) / (a0of(h, OK) * H0of(h, 'planck'))


def cases(tier, seed):
    T = tier == 'thorough'
    out = [dict(kind='constants'), dict(kind='lines'), dict(kind='reheating'), dict(kind='bad')]
    om = OM + ((0.01, 0.2, 0.31, 0.7, 1.2, 2., 10.) if T else ())
    ok = OK_ + ((-1., -0.044, -0.001, 0.001, 0.09, 0.7, 0.99) if T else ())
    for h in HS:
        for Om in om:
            out.append(dict(kind='expansion', h=h, Om=Om, OK=list(ok)))
            if T or h in (0.3, 0.7):
                out.append(dict(kind='eta', h=h, Om=Om, OK=list(ok)))
    for K in (-1, 0, 1):
        for form in 'TN':
            out.append(dict(kind='ratio', K=K, form=form))
    return out


def call(f, *a, **kw):
    """(value, exception, BigBangWarning seen)"""
    from primpy.exceptionhandling import BigBangWarning
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            v, e = f(*a, **kw), None
        except Exception as ex:      # the kind of error is judged by the caller
            v, e = None, ex
    return v, e, any(issubclass(i.category, BigBangWarning) for i in w)


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def run_constants(case, ctx):
    import primpy.bigbang as bb
    import primpy.parameters as pa
    import primpy.units as un
    GeV = 1e9 * sc.e
    for name, want in dict(mp_kg=mpl, tp_s=tp, lp_m=lp, Tp_K=mpl * sc.c ** 2 / sc.k, mp_GeV=mpl * sc.c ** 2 / GeV,
                           tp_iGeV=GeV * tp / sc.hbar, lp_iGeV=GeV * lp / sc.hbar / sc.c, Mpc_m=Mpc,
                           a_B=4 * sc.Stefan_Boltzmann / sc.c).items():
        ctx.close('units.%s' % name, getattr(un, name), want, 1e-9, what='unit constant')
    u = math.pi ** 2 / 15 * (sc.k * 2.72548) ** 4 / (sc.hbar * sc.c) ** 3 / sc.c ** 2
    nu = 3.044 * 7 / 8 * (4 / 11) ** (4 / 3)
    for name, want in dict(K_STAR=0.05, K_STAR_lp=0.05 / Mpc * lp, T_CMB_K=2.72548, T_CMB_Tp=2.72548 * sc.k / (mpl * sc.c ** 2),
                           T_nu_K=2.72548 * (4 / 11) ** (1 / 3), T_nu_Tp=2.72548 * (4 / 11) ** (1 / 3) * sc.k / (mpl * sc.c ** 2),
                           N_eff=3.044, g0=2 + 3.044 * 7 / 4 * 4 / 11, rho_gamma0_kg_im3=u, rho_nu0_kg_im3=u * nu,
                           rho_r0_kg_im3=u * (1 + nu), rho_r0_mp_ilp3=u * (1 + nu) / mpl * lp ** 3, z_BBN=1e9).items():
        ctx.close('parameters.%s' % name, getattr(pa, name), want, 1e-9, what='parameter')
    for h in HS:
        for u in ('planck', 'SI', 'H0'):
            ctx.close('get_H0 h=%s %s' % (h, u), bb.get_H0(h, units=u), H0of(h, u), 1e-12)
        ctx.close('get_H0 h=%s default' % h, bb.get_H0(h), H0of(h, 'planck'), 1e-12)
        ctx.close('rho_crit h=%s' % h, bb.get_rho_crit_kg_im3(h), 3 * H0of(h, 'SI') ** 2 / (8 * math.pi * sc.G), 1e-12)
        ctx.close('Omega_r0 h=%s' % h, bb.get_Omega_r0(h), omega_r(h), 1e-9)
        for OK in OK_:
            for u in ('planck', 'SI', 'Mpc'):
                ctx.close('get_a0 h=%s OK=%s %s' % (h, OK, u), bb.get_a0(h, OK, units=u), a0of(h, OK, u), 1e-12)
            ctx.close('N_BBN h=%s OK=%s' % (h, OK), bb.get_N_BBN(h, OK), math.log(a0of(h, OK) / (1 + 1e9)), 1e-12)
    ctx.sample = dict(case=case)


def run_lines(case, ctx):
    """The dividing lines are where the classification changes."""
    import primpy.bigbang as bb
    for Om in sorted(set(OM) | {i / 40 for i in range(0, 161)} | {1e-8, 1e-3, 5., 20., 100.}):
        hi, lo = float(bb.no_Big_Bang_line(Om)), float(bb.expand_recollapse_line(Om))
        d = 1e-6 * max(1., Om)
        ctx.true('no_Big_Bang_line Om=%s' % Om, classify(Om, hi + d) == 'no bang' and classify(Om, hi - d) != 'no bang',
                 'no_Big_Bang_line(%s)=%r is not where the Big Bang is lost' % (Om, hi))
        ctx.true('expand_recollapse_line Om=%s' % Om, classify(Om, lo - d) == 'recollapse' and classify(Om, lo + d) != 'recollapse',
                 'expand_recollapse_line(%s)=%r is not where recollapse starts' % (Om, lo))


def run_reheating(case, ctx):
    """Between end of inflation and of reheating ln(1/aH) grows with slope (1+3w)/2."""
    import primpy.bigbang as bb
    for w, d, N_end, c0 in itertools.product((-1 / 3, -0.2, 0., 0.1, 1 / 3, 0.5, 1., 3.), (1e-3, 0.5, 7., 40., -3.), (0., 63.7), (-5., 110.)):
        w_got, d_got = bb.get_w_delta_reh(N_end=N_end, N_reh=N_end + d, log_cHH_end=c0, log_cHH_reh=c0 + (1 + 3 * w) / 2 * d)
        key = 'w_delta_reh w=%.3g d=%s N_end=%s c0=%s' % (w, d, N_end, c0)
        ctx.close(key + ' w', w_got, w, 1e-9, 1e-10 + 1e-13 / abs(d))
        ctx.close(key + ' delta', d_got, d, 1e-9, 1e-12)


def run_bad(case, ctx):
    import primpy.bigbang as bb
    for bad in ('mpc', 'foo', '', None, 3):
        ctx.true('get_H0 units=%r' % (bad,), call(bb.get_H0, 0.7, units=bad)[1] is not None, 'accepted')
        for OK in (0.01, -0.01):
            ctx.true('get_a0 units=%r OK=%s' % (bad, OK), call(bb.get_a0, 0.7, OK, units=bad)[1] is not None, 'accepted')
        for OK in (0.01, -0.01, 0.):
            for N in (100., np.array([100., 120.])):
                kw = dict(N=N, Omega_m0=0.3, Omega_K0=OK, h=0.7, units=bad)
                ctx.true('Hubble_parameter units=%r OK=%s' % (bad, OK), call(bb.Hubble_parameter, **kw)[1] is not None, 'accepted')
                ctx.true('cHH units=%r OK=%s' % (bad, OK), call(bb.comoving_Hubble_horizon, **kw)[1] is not None, 'accepted')
    ctx.true('get_H0 Mpc', call(bb.get_H0, 0.7, units='Mpc')[1] is not None, 'accepted')
    ctx.true('get_a0 H0', call(bb.get_a0, 0.7, 0.01, units='H0')[1] is not None, 'accepted')
    ctx.true('Hubble_parameter Mpc', call(bb.Hubble_parameter, 100., 0.3, 0.01, 0.7, units='Mpc')[1] is not None, 'accepted')
    for Om in (-1e-9, -0.3, -5.):
        for OK in (0., 0.2, -0.2):
            for f in (bb.Hubble_parameter, bb.comoving_Hubble_horizon):
                ctx.true('%s Om=%s' % (f.__name__, Om), isinstance(call(f, 100., Om, OK, 0.7)[1], ValueError), 'no ValueError')
            ctx.true('conformal_time Om=%s' % Om, isinstance(call(bb.conformal_time, 90., 100., Om, OK, 0.7)[1], ValueError), 'no ValueError')
        for f in (bb.no_Big_Bang_line, bb.expand_recollapse_line):
            ctx.true('%s Om=%s' % (f.__name__, Om), isinstance(call(f, Om)[1], ValueError), 'no ValueError')


def verdict(ctx, key, exc, warned, cls):
    """Judge error/warning against the class; returns whether a value is expected."""
    from primpy.exceptionhandling import BigBangError
    ctx.ev()
    if cls is None:
        return exc is None
    if cls == 'no bang':
        if not isinstance(exc, BigBangError):
            ctx.bad(key, 'universe without a Big Bang not reported as BigBangError: %r' % (exc,))
        return False
    if exc is not None:
        ctx.bad(key, '%s universe raised %r' % (cls, exc))
        return False
    if warned != (cls == 'recollapse'):
        ctx.bad(key, '%s universe: BigBangWarning %s' % (cls, 'issued' if warned else 'missing'))
    return True


def run_expansion(case, ctx):
    import primpy.bigbang as bb
    h, Om = case['h'], case['Om']
    for OK in case['OK']:
        OL = 1 - omega_r(h) - Om - OK
        cls = stable_class(Om, OL)
        ctx.outcome(str(cls))
        N0 = math.log(a0of(h, OK))
        x = np.array(DN)
        N = N0 + x
        e2, mag = E2(x, Om, OK, h)
        key = 'h=%s Om=%s OK=%s' % (h, Om, OK)
        for u in ('planck', 'SI', 'H0', None):
            kw = {} if u is None else dict(units=u)
            v, exc, warned = call(bb.Hubble_parameter, N, Om, OK, h, **kw)
            if verdict(ctx, 'H %s %s' % (key, u), exc, warned, cls):
                H0 = H0of(h, u or 'planck')
                check_sq(ctx, 'H %s %s' % (key, u), np.asarray(v) / H0, e2, mag)
                i = DN.index(0.)
                ctx.close('H(today) %s %s' % (key, u), v[i], H0, 1e-10)
        for u in ('planck', 'SI', 'Mpc', None):
            kw = {} if u is None else dict(units=u)
            v, exc, warned = call(bb.comoving_Hubble_horizon, N, Om, OK, h, **kw)
            if verdict(ctx, 'cHH %s %s' % (key, u), exc, warned, cls):
                unit = {'planck': 1., 'SI': lp, 'Mpc': lp / Mpc}[u or 'planck']
                with np.errstate(all='ignore'):
                    E = np.exp(-x) / (np.asarray(v) / unit * H0of(h, 'planck'))
                check_sq(ctx, 'cHH %s %s' % (key, u), E, e2, mag)
        # scalars and shapes agree with the array elementwise
        full = call(bb.Hubble_parameter, N, Om, OK, h)[0]
        cfull = call(bb.comoving_Hubble_horizon, N, Om, OK, h)[0]
        for f, ref in ((bb.Hubble_parameter, full), (bb.comoving_Hubble_horizon, cfull)):
            if ref is None:
                continue
            m = np.array(N[:16]).reshape(4, 4)
            v = call(f, m, Om, OK, h)[0]
            ctx.true('%s 2-d %s' % (f.__name__, key), v is not None and np.shape(v) == (4, 4)
                     and np.allclose(v, np.reshape(ref[:16], (4, 4)), rtol=1e-11, atol=0, equal_nan=True), '2-d array: %r' % (v,))
            for i, n in enumerate(N):
                for s in (float(n), np.float64(n)):
                    v, exc, warned = call(f, s, Om, OK, h)
                    ctx.true('%s scalar %s N=%r' % (f.__name__, key, s), exc is None and np.ndim(v) == 0
                             and np.allclose(v, ref[i], rtol=1e-11, atol=0, equal_nan=True), 'scalar %r array %r (%r)' % (v, ref[i], exc))
    ctx.sample = dict(h=h, Om=Om, OK=case['OK'][-1], cls=str(cls))


def check_sq(ctx, key, E, e2, mag):
    """E is sqrt(e2), nan where e2 < 0 (within rounding of its terms)."""
    for i in range(len(e2)):
        ctx.ev()
        tol = 1e-11 * mag[i]
        if abs(e2[i]) <= tol:
            continue
        if e2[i] < 0:
            if not math.isnan(E[i]):
                ctx.bad(key, 'x=%s: %r where H^2 < 0' % (DN[i], E[i]))
        elif not abs(E[i] ** 2 - e2[i]) <= tol + 1e-11 * e2[i] or E[i] < 0:
            ctx.bad(key, 'x=%s: (H/H0)^2=%r, Friedmann %r' % (DN[i], E[i] ** 2, e2[i]))


def run_eta(case, ctx):
    import primpy.bigbang as bb
    h, Om = case['h'], case['Om']
    for OK in case['OK']:
        OL = 1 - omega_r(h) - Om - OK
        cls = stable_class(Om, OL)
        N0 = math.log(a0of(h, OK))
        key = 'eta h=%s Om=%s OK=%s' % (h, Om, OK)
        x = np.array([-75., -40., -8., -1., 0., 2.])
        v, exc, warned = call(bb.conformal_time, N0 - 8., N0 + x, Om, OK, h)
        if not verdict(ctx, key, exc, warned, cls):
            continue
        grid = np.linspace(-75.5, 2.5, 400)
        e2, mag = E2(grid, Om, OK, h)
        smooth = np.all(e2 > 0.02 * mag)
        eta_unit = 1 / (a0of(h, OK) * H0of(h, 'planck'))
        if not smooth:
            x = x[:4]
            e2, mag = E2(grid[grid < 0.], Om, OK, h)
            if not np.all(e2 > 0.02 * mag):
                ctx.outcome('skipped: turning point within range')
                continue
        for i, x1 in enumerate(x):
            want = np.array([eta_of(x1, x2, Om, OK, h) for x2 in x])
            tol = 1e-7 * np.abs(want) + 1e-7 + 1e-9 * eta_unit
            got, exc, _ = call(bb.conformal_time, N0 + x1, N0 + x, Om, OK, h)
            ctx.ev(len(x))
            if exc is not None or np.shape(got) != np.shape(want) or not np.all(np.abs(got - want) <= tol):
                ctx.bad('%s from %s' % (key, x1), 'got %r want %r (%r)' % (got, want, exc))
                continue
            g2, exc, _ = call(bb.conformal_time, N0 + x1, np.array([N0 + x[:2], N0 + x[2:4]]), Om, OK, h)
            ctx.true('%s from %s 2-d' % (key, x1), exc is None and np.shape(g2) == (2, 2) and
                     np.allclose(g2, np.reshape(got[:4], (2, 2)), rtol=1e-12, atol=0), '2-d array: %r, 1-d %r (%r)' % (g2, got[:4], exc))
            # the order, repetition and layout of the array do not matter
            n = len(x)
            for lab, o, pick in (('reversed', range(n)[::-1], None), ('rotated', [(3 * q + 2) % n if n % 3 else (q + 2) % n for q in range(n)], None),
                                 ('mixed', [2, 0, 3, 1, 2, 0], None), ('strided', range(n)[::2], slice(None, None, 2)), ('one', [1], None),
                                 ('none', [], None)):
                o = list(o)
                arg = N0 + x[pick] if pick else N0 + x[np.array(o, dtype=int)]
                if lab == 'reversed':
                    arg = (N0 + x)[::-1]
                elif lab == 'strided':
                    arg = (N0 + x)[::2]
                before = arg.copy()
                g3, exc, _ = call(bb.conformal_time, N0 + x1, arg, Om, OK, h)
                ctx.true('%s from %s %s' % (key, x1, lab), exc is None and np.shape(g3) == (len(o),) and np.array_equal(arg, before) and
                         np.allclose(g3, np.asarray(got)[np.array(o, dtype=int)], rtol=1e-12, atol=0), '%r, ascending %r (%r)' % (g3, got, exc))
            for j in (0, len(x) - 1):
                s, exc, _ = call(bb.conformal_time, N0 + x1, float(N0 + x[j]), Om, OK, h)
                s = s[0] if isinstance(s, tuple) else s
                ctx.true('%s from %s scalar %s' % (key, x1, x[j]), exc is None and abs(s - got[j]) <= 1e-9 * abs(got[j]), 'scalar %r array %r' % (s, got[j]))
    ctx.sample = dict(h=h, Om=Om, OK=case['OK'][-1], cls=str(cls))


def run_ratio(case, ctx):
    import primpy.bigbang as bb
    import primpy.potentials as pp
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.initialconditions import InflationStartIC
    from primpy.events import InflationEvent, UntilNEvent
    from primpy.solver import solve
    K, form = case['K'], case['form']
    for Lam, phi, N_i, eta_i in ((0.0025, 16., 11., 0.), (0.0025, 17., 12.5, 3.)):
        pot = pp.QuadraticPotential(Lambda=Lam)
        eq = (InflationEquationsT if form == 'T' else InflationEquationsN)(K, pot, track_eta=True)
        ev = lambda: [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
        for cal in range(3):
            f = solve(InflationStartIC(eq, phi_i=phi, N_i=N_i, t_i=7e4, eta_i=eta_i), events=ev())
            b = solve(InflationStartIC(eq, phi_i=phi, N_i=N_i, t_i=7e4, eta_i=eta_i, x_end=(1. if form == 'T' else N_i - 5.)),
                      events=[UntilNEvent(eq, N_i - 4.)])
            OK = 0. if K == 0 else -K * (0.01, 1e-3, 0.1)[cal]
            Om, h = (0.3, 0.25, 0.4)[cal], (0.7, 0.6, 0.5)[cal]
            if K:
                f.calibrate_scale_factor(Omega_K0=OK, h=h)
            else:
                f.calibrate_scale_factor(**(dict(N_star=50.), dict(calibration_method='reheating'), dict(N_star=55.))[cal])
            # horizon problem: comoving particle horizon before over after, in the same comoving units
            a_end = math.exp(f.N_end - math.log(a0of(h, OK)))       # relative to today
            scale = math.exp(f._N_end) / (a_end * a0of(h, OK))       # eta ~ 1/a
            # after the end of inflation: standard Big Bang back to a_end
            after = eta_of(math.log(a_end), 0., Om, OK, h)
            for bw in (None, b):
                e0 = f.eta[0] if bw is None else b.eta[-1]
                want = (f.eta[-1] - e0) * scale / after
                got, exc, _ = call(bb.conformal_time_ratio, Om, OK, h, f, *([] if bw is None else [b]))
                ctx.outcome('ratio > 1' if want > 1 else 'ratio < 1')
                ctx.close('ratio K=%s %s phi=%s cal=%s back=%s' % (K, form, phi, cal, bw is not None), np.nan if exc else got, want,
                          1e-6, what='conformal_time_ratio (%r)' % (exc,))
