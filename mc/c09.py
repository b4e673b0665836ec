"""C09: calibrate_scale_factor obeys its decision table and the reheating relations."""
import itertools
import warnings

import numpy as np
from scipy import constants as sc
from scipy.interpolate import CubicSpline

PID, LEVEL = 'C09', 'exploration'
TECHNIQUE = "exhaustive enumeration of calibration argument patterns against an independent decision table and relations"
NOTE = ("the full product of None/special/ordinary/invalid values of every calibration argument is applied to real background "
        "solutions for flat, open and closed universes; each outcome must be the documented error or satisfy the defining "
        "relations, and equivalent argument sets must give the same calibration")
RULE = ("background x method x N_star x (h, Omega_K0) x w_reh x DeltaN_reh x rho_reh_GeV x DeltaN_minus1 x g_th; "
        "non-trivial: the call was classified as required error or as a calibration whose relations were evaluated")
ASSUMPTIONS = ["arguments that a method documents as belonging to another method may be ignored or rejected",
               "crossing times are compared within twice the linear-interpolation error of the solution's own steps",
               "the pivot scale crosses the horizon well after the start of inflation (otherwise the third-order spectra derived "
               "along the way may not exist at the pivot)"]
CASE_TIMEOUT = 600

lp = np.sqrt(8 * np.pi * sc.G * sc.hbar / sc.c ** 3)
mpGeV = np.sqrt(sc.hbar * sc.c ** 5 / (8 * np.pi * sc.G)) / (1e9 * sc.e)
TpK = np.sqrt(sc.hbar * sc.c ** 5 / (8 * np.pi * sc.G)) / sc.k
Mpc = 1e6 * sc.parsec

CFG = {  # name -> (potential, kwargs, N_i, phi_i, kind)
    'staro': ('StarobinskyPotential', dict(Lambda=3.3e-3), 14., 6.5, 'IS'),
    'quad': ('QuadraticPotential', dict(Lambda=0.0025), 12., 17., 'IS'),
    'sr': ('NaturalPotential', dict(Lambda=0.0055, phi0=50.), 12., 15., 'SR'),
    'kin': ('StarobinskyPotential', dict(Lambda=3.3e-3), 14., 8., 'KIN'),
    'short': ('QuadraticPotential', dict(Lambda=0.0025), 16., 12., 'IS'),
}
NONE = None
GEO = {0: [(NONE, NONE), (0.7, 0.), (NONE, 0.01)],
       1: [(0.7, -0.01), (0.5, -1e-4), (0.7, NONE), (0.7, 0.01), (0.7, 0.), (NONE, -0.01), (-0.7, -0.01), (NONE, NONE)]}
GEO[-1] = [(h, None if o is None else -o) for h, o in GEO[1]]
WS = [None, -0.6, -1 / 3, 0., 1 / 3, 1.]
DN = [None, -1., 0., 5.]
RHO = [None, 1e3, 1e9, 1e18]
DM = [None, 0., 2., -1.]
METHODS = [None, 'N_star', 'reheating', 'Omega_K0', 'spam']


def cases(tier, seed):
    T = tier == 'thorough'
    out = [dict(kind='instant')]
    cfgs = [('staro', -1, 'T'), ('staro', 0, 'T'), ('staro', 1, 'N'), ('quad', 0, 'N'), ('quad', 1, 'T'), ('quad', -1, 'N'),
            ('sr', 0, 'T'), ('kin', 0, 'T'), ('kin', 1, 'N'), ('short', 0, 'T'), ('short', -1, 'T'),
            ('quad', 0, 'T+'), ('quad', 1, 'N+'), ('quad', -1, 'T+'), ('kin', 0, 'N+')]
    if T:
        cfgs = [(c, K, f) for c in CFG for K in (-1, 0, 1) for f in ('T', 'N', 'T+', 'N+')]
    for c, K, f in cfgs:
        full = T or c in ('staro', 'short')
        for m in METHODS:
            for w in WS:
                out.append(dict(kind='table', cfg=c, K=K, form=f, method=m, w=w, full=full))
        out.append(dict(kind='equiv', cfg=c, K=K, form=f))
    for c in CFG:
        out.append(dict(kind='background', cfg=c))
    return out


def build(cfg, K, form, rtol=1e-10):
    import primpy.potentials as pp
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.initialconditions import SlowRollIC, InflationStartIC
    from primpy.events import InflationEvent, AfterInflationEndEvent
    from primpy.solver import solve
    from mc.bg import raw_ic
    name, kw, N_i, phi_i, kind = CFG[cfg]
    past = form.endswith('+')      # keep integrating after the end of inflation
    form = form[0]
    pot = getattr(pp, name)(**kw)
    eq = (InflationEquationsT if form == 'T' else InflationEquationsN)(K, pot)
    if kind == 'KIN':
        V = float(pot.V(phi_i))
        pd = -8 * np.sqrt(V)
        H = np.sqrt((pd ** 2 / 2 + V) / 3 - K * np.exp(-2 * N_i))
        ic = raw_ic(eq, {'phi': phi_i, 'dphidt': pd, 'dphidN': pd / H, '_N': N_i}, 7e4 if form == 'T' else N_i, 1e300)
    else:
        ic = (InflationStartIC if kind == 'IS' else SlowRollIC)(eq, phi_i=phi_i, N_i=N_i, t_i=7e4)
    events = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=not past)]
    return solve(ic, events=events + [AfterInflationEndEvent(eq)] * past, rtol=rtol, atol=1e-14)


class Ref:
    """What the calibration must be, from the uncalibrated solution."""

    def __init__(self, sol, K):
        from primpy.parameters import K_STAR, T_CMB_K, N_eff
        self.sol, self.K = sol, K
        self.K_STAR, self.K_lp = K_STAR, K_STAR / Mpc * lp
        g0 = 2 + 7 / 8 * 2 * N_eff * 4 / 11
        self.T = T_CMB_K / TpK
        self.X0 = np.log((45 / np.pi ** 2) ** 0.25 * g0 ** (-1 / 3))
        m = (sol._N > sol._N_beg) & (sol._N < sol._N_end)
        N, l = sol._N[m], sol._logaH[m]
        self.m, self.N, self.l = m, N, l
        self.spl = CubicSpline(N, l)
        self.V, self.N_end, self.N_beg, self.N_tot = float(sol.V_end), sol._N_end, sol._N_beg, sol._N_end - sol._N_beg
        self.l_end, self.l_beg = sol._N_end + np.log(sol.H_end), sol._N_beg + np.log(sol.H_beg)

    def err(self, N):
        """interpolation error bound of ln(aH) around N"""
        i = int(np.clip(np.searchsorted(self.N, N), 2, self.N.size - 3))
        h = np.diff(self.N[i - 2:i + 3]).max()
        return 2 * h ** 2 / 8 * np.abs(self.spl(self.N[i - 2:i + 3], 2)).max() + 1e-9

    def cross(self, l):
        r = self.spl.solve(l, extrapolate=False)
        r = r[(r >= self.N[0]) & (r <= self.N[-1])]
        return float(r[-1]) if r.size else np.nan

    def lrho(self, rho_GeV):
        return 4 * np.log(rho_GeV / mpGeV)


def instant(w, dN, rho, dm):
    """True/False/'contradiction' from the documentation of is_instant_reheating (without N_star)."""
    given = [(w, 1 / 3), (dN, 0), (dm, 0)]
    if not any(v is not None and v == s for v, s in given) and any(v is not None for v in (w, dN, rho, dm)):
        return False
    if rho is not None or any(v is not None and v != s for v, s in given):
        return 'contradiction'
    return True


def expect(R, method, a, dl=0.):
    """(set of reasons to fail, expected values or None). dl shifts interpolated ln(aH) to gauge its error."""
    from primpy.exceptionhandling import InsufficientInflationError as Insuff
    why, nan = set(), np.nan
    w, dN, rho, dm, Ns, h, Ok, g = (a[k] for k in ('w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1', 'N_star', 'h',
                                                   'Omega_K0', 'g_th'))
    K = R.K
    X = R.X0 + np.log(g) / 12
    lT, lV = 4 * np.log(R.T), np.log(R.V)
    lV32 = lV + np.log(1.5)
    flat = K == 0
    method = method or ('N_star' if flat else 'Omega_K0')
    if flat and Ok not in (None, 0):
        why.add(ValueError)
    if not flat and Ns is not None:
        why.add(ValueError)
    if not flat and (h is None or h <= 0):
        why.add(ValueError)
    if method not in (('N_star', 'reheating') if flat else ('Omega_K0', 'reheating')):
        why.add(NotImplementedError)
        return why, None
    v = {}

    def finish(N0, N_end):  # both in the calibrated convention
        d = N_end - R.N_end
        l_star = np.log(R.K_lp) + N0 - d
        N_c = R.cross(l_star)
        v.update(N0=N0, N_end=N_end, delta_N_calib=d, _logaH_star=l_star, N_cross=N_c + d, N_star=R.N_end - N_c,
                 N_dagg=N_c - R.N_beg, a0=np.exp(N0))
    if method == 'N_star':
        if Ns is None or Ns <= 0:
            why.add(ValueError)
        elif Ns > R.N_tot:
            why.add(Insuff)
        cnt = [x is not None for x in (rho, w, dN)]
        if cnt not in ([False] * 3, [True, False, False], [False, True, False]):
            why.add(ValueError)
        if cnt[1] and (w == 1 / 3 or w < -1 / 3):
            why.add(ValueError)
        if why:
            return why, None
        l_star = float(R.spl(R.N_end - Ns)) + dl
        N_end = R.N_end + np.log(R.K_lp) - l_star
        finish(0., N_end)
        v.update(_logaH_star=l_star, N_star=Ns, N_cross=N_end - Ns, N_dagg=R.N_end - Ns - R.N_beg)
        v['DeltaN_minus1'] = -X - (lV - lT) / 4 - N_end
        if cnt[1]:
            v['w_reh'], v['DeltaN_reh'] = w, 4 * v['DeltaN_minus1'] / (1 - 3 * w)
            v['lrho'] = lV32 - 3 * (1 + w) * v['DeltaN_reh']
            if v['DeltaN_reh'] < 0:
                return {ValueError}, None
            v['N_reh'] = N_end + v['DeltaN_reh']
        elif cnt[0]:
            v['lrho'] = R.lrho(rho)
            v['N_reh'] = -X + (np.log(1.5) + lT - v['lrho']) / 4
            v['DeltaN_reh'] = v['N_reh'] - N_end
            v['w_reh'] = (lV32 - v['lrho']) / (3 * v['DeltaN_reh']) - 1
        else:
            v.update(lrho=nan, N_reh=nan, DeltaN_reh=nan, w_reh=nan)
        v['Omega_K0'] = 0
        return why, v
    if method == 'Omega_K0':
        if Ok is None or Ok == 0 or Ok * K > 0:
            why.add(ValueError)
        if why:
            return why, None
        N0 = np.log(sc.c / (h * 1e5) / np.sqrt(abs(Ok)) * Mpc / lp)
        finish(N0, R.N_end)
        v['Omega_K0'] = Ok
        if rho is None:
            v.update(lrho=nan, N_reh=nan, DeltaN_reh=nan, w_reh=nan, DeltaN_minus1=nan)
        else:
            v['lrho'] = R.lrho(rho)
            v['N_reh'] = N0 - X + (np.log(1.5) + lT - v['lrho']) / 4
            v['DeltaN_reh'] = v['N_reh'] - R.N_end
            v['w_reh'] = (lV32 - v['lrho']) / (3 * v['DeltaN_reh']) - 1
            v['DeltaN_minus1'] = v['DeltaN_reh'] / 4 * (1 - 3 * v['w_reh'])
    else:
        if dN is not None and dN < 0 or w is not None and w < -1 / 3:
            why.add(ValueError)
        if not flat and Ok is not None:
            why.add(ValueError)
        inst = instant(w, dN, rho, dm) if Ns is None else False  # N_star excludes the instant shortcut by documentation
        if inst == 'contradiction':
            return why | {ValueError}, None
        if inst:
            w, dN, dm, lr = 1 / 3, 0., 0., lV32
        elif dm is not None:
            if not flat:
                return why | {ValueError}, None
            if w is not None or dN is not None:
                return why | {NotImplementedError}, None
            if rho is None:
                w, dN, lr = nan, nan, nan
            else:
                lr = R.lrho(rho)
                dN = None
        elif w is not None and dN is not None and rho is None:
            dm, lr = dN / 4 * (1 - 3 * w), lV32 - 3 * (1 + w) * dN
        elif w is not None and dN is None and rho is not None:
            if why:
                return why, None
            lr = R.lrho(rho)
            dN = (lV32 - lr) / (3 * (1 + w))
            dm = dN / 4 * (1 - 3 * w)
        else:
            return why | {ValueError}, None
        if why:
            return why, None
        gap = X + (lV - lT) / 4 + dm           # e-folds from the end of inflation until today
        N0, N_end = (0., -gap) if flat else (R.N_end + gap, R.N_end)
        if dN is None:
            dN = N0 - X + (np.log(1.5) + lT - lr) / 4 - N_end
            w = (lV32 - lr) / (3 * dN) - 1
        v.update(lrho=lr, N_reh=N_end + dN, DeltaN_reh=dN, w_reh=w, DeltaN_minus1=dm)
        finish(N0, N_end)
        v['Omega_K0'] = 0 if flat else -K * (sc.c / (h * 1e5) / (np.exp(N0) * lp / Mpc)) ** 2
    lo, hi = (R.l_beg, R.l_end) if flat else (R.l.min(), R.l.max())
    if not lo <= v['_logaH_star'] <= hi:
        return {Insuff}, None
    return why, v


def verify(ctx, key, R, sol, a, method):
    why, v = expect(R, method, a)
    ok = True
    tolN = R.err(v['N_cross'] - v['delta_N_calib'])
    tolN /= max(1e-3, abs(float(R.spl(v['N_cross'] - v['delta_N_calib'], 1))))
    m = 'N_star' if R.K == 0 and method in (None, 'N_star') else ''
    vs = [expect(R, method, a, s * tolN)[1] or v for s in (1, -1)] if m else [v, v]
    for n in ('N0', 'N_end', 'delta_N_calib', '_logaH_star', 'N_cross', 'N_star', 'N_dagg', 'N_reh', 'DeltaN_reh', 'w_reh',
              'DeltaN_minus1'):
        got = float(getattr(sol, n))
        tol = 1e-8 + abs(vs[0][n] - vs[1][n]) + (tolN if n in ('N_cross', 'N_star', 'N_dagg') else 0)
        if np.isnan(tol):
            tol = 1e-8
        good = np.isnan(got) if np.isnan(v[n]) else abs(got - v[n]) <= tol * max(1, abs(v[n]) * 1e-3)
        ok &= ctx.true(f'{key}:{n}', good, f'{n}={got!r}, expected {v[n]!r} (tolerance {tol:.2g})')
    tl = 1e-8 + 1.1 * abs(vs[0]['lrho'] - vs[1]['lrho']) if np.isfinite(v['lrho']) else 0
    for n, off in (('rho_reh_mp4', 0.), ('rho_reh_GeV', None)):
        got = float(getattr(sol, n))
        want = v['lrho']
        g = np.log(got) if off == 0. else 4 * np.log(got / mpGeV)
        good = np.isnan(got) if np.isnan(want) else abs(g - want) <= tl
        ok &= ctx.true(f'{key}:{n}', good, f'{n}={got!r}, expected ln(rho/mp^4)={want!r}, got {g!r}')
    ok &= ctx.true(f'{key}:Omega_K0', abs(sol.Omega_K0 - v['Omega_K0']) <= 1e-8 * abs(v['Omega_K0']),
                   f'Omega_K0={sol.Omega_K0!r}, expected {v["Omega_K0"]!r}')
    ok &= ctx.true(f'{key}:a0', abs(np.log(sol.a0) - v['N0']) <= 1e-8, f'a0={sol.a0!r}, N0={v["N0"]!r}')
    if R.K != 0:
        ok &= ctx.true(f'{key}:a0_Mpc', abs(np.log(sol.a0_Mpc * Mpc / lp) - v['N0']) <= 1e-8, f'a0_Mpc={sol.a0_Mpc!r}')
    # the factor between k in 1/Mpc and the comoving k of the solution
    ok &= ctx.true(f'{key}:a0_Mpc*k', abs(np.log(sol.a0_Mpc) + np.log(R.K_STAR) - sol._logaH_star) <= 1e-8, f'a0_Mpc={sol.a0_Mpc!r}')
    ok &= arrays(ctx, key, R, sol)
    return ok, v


def arrays(ctx, key, R, sol, more=0.):
    ok = True
    d = sol.delta_N_calib
    for n in ('N_beg', 'N_end', 'N_cross'):
        ok &= ctx.true(f'{key}:{n}-_N', abs(getattr(sol, n) - getattr(sol, '_' + n) - d) < 1e-9, f'{n} is not _{n} + {d!r}')
    ok &= ctx.true(f'{key}:N', np.max(np.abs(sol.N - sol._N - d)) < 1e-9, 'N is not _N + delta_N_calib')
    mask = np.asarray(sol.inflation_mask)
    ok &= ctx.true(f'{key}:mask', mask.dtype == bool and not np.any(mask & ~R.m) and mask.sum() > 0.9 * R.m.sum(),
                   f'{mask.sum()} points in inflation_mask, {R.m.sum()} during inflation')
    # k crossing the horizon at each step, in 1/Mpc, anchored by the pivot
    logk = sol._logaH[mask] - sol._logaH_star + np.log(R.K_STAR)
    ok &= ctx.true(f'{key}:logk', sol.logk.shape == logk.shape and np.max(np.abs(sol.logk - logk)) < 1e-8, 'logk')
    ok &= ctx.true(f'{key}:k_iMpc', np.max(np.abs(np.log(sol.k_iMpc) - logk)) < 1e-8, 'k_iMpc')
    ok &= ctx.true(f'{key}:_k', np.max(np.abs(np.log(sol._k) - sol._logaH[mask])) < 1e-8, '_k')
    l = sol._logaH - sol._logaH_star + np.log(R.K_STAR)
    ok &= ctx.true(f'{key}:cHH_Mpc', np.max(np.abs(np.log(sol.cHH_Mpc) + l)) < 1e-8, 'comoving Hubble horizon is not 1/k')
    ok &= ctx.true(f'{key}:cHH_end', abs(np.log(sol.cHH_end_Mpc) + R.l_end - sol._logaH_star + np.log(R.K_STAR)) < 1e-8 + more,
                   'comoving Hubble horizon at the end of inflation')
    i = np.abs(R.N - (sol.N_cross - d)).argmin()
    got = float(R.spl(sol.N_cross - d))
    ok &= ctx.true(f'{key}:crossing', abs(got - sol._logaH_star) < R.err(sol.N_cross - d) * 2 + more,
                   f'aH at N_cross is {got!r}, pivot has {float(sol._logaH_star)!r}')
    return ok


def call(sol, method, a):
    from primpy.exceptionhandling import PrimpyWarning
    kw = {k: v for k, v in a.items() if v is not None}
    if method:
        kw['calibration_method'] = method
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        try:
            sol.calibrate_scale_factor(**kw)
        except Exception as e:
            return e, None
    return None, any(issubclass(r.category, PrimpyWarning) for r in rec)


def unused(K, method, a):
    """arguments the method does not document; setting them may be ignored or rejected"""
    m = method or ('N_star' if K == 0 else 'Omega_K0')
    if K == 0:
        return ['DeltaN_minus1'] if m == 'N_star' else ['N_star']
    return ['w_reh', 'DeltaN_reh', 'DeltaN_minus1'] if m == 'Omega_K0' else []


def run(case, ctx):
    from primpy.exceptionhandling import PrimpyError
    if case['kind'] == 'instant':
        return run_instant(ctx)
    if case['kind'] == 'background':
        return run_background(case, ctx)
    K = case['K']
    sol = build(case['cfg'], K, case['form'])
    R = Ref(sol, K)
    tag = f"{case['cfg']}:K={K}:{case['form']}"
    if case['kind'] == 'equiv':
        return run_equiv(case, ctx, sol, R, tag)
    method, w = case['method'], case['w']
    full = case['full']
    NS = [None, 50., 61.5, 20., 0., -5., 1e4] if K == 0 else [None, 50.]
    for (h, ok), Ns, dN, rho, dm, g in itertools.product(GEO[K], NS, DN, RHO, DM if full else DM[:3], [None, 10.]):
        if g is not None and (rho == 1e3 or (h, ok) not in GEO[K][:1]):
            continue
        a = dict(h=h, Omega_K0=ok, N_star=Ns, w_reh=w, DeltaN_reh=dN, rho_reh_GeV=rho, DeltaN_minus1=dm, g_th=g)
        key = f"{tag}:{method}:" + ','.join(f'{n}={v}' for n, v in a.items() if v is not None)
        full_a = dict(a, g_th=100. if g is None else g)
        err, warned = call(sol, method, a)
        ctx.ev()
        why, v = expect(R, method, full_a)
        extra = [n for n in unused(K, method, a) if a[n] is not None]
        if extra:  # ignored or rejected
            if err is not None:
                ctx.outcome('call with unused argument rejected')
                ctx.true(key + ':rejected', isinstance(err, (ValueError, NotImplementedError, PrimpyError)), f'got {err!r}')
                continue
            full_a = dict(full_a, **{n: None for n in extra if n != 'N_star'})
            why, v = expect(R, method, full_a)
        if why:
            names = '/'.join(sorted(e.__name__ for e in why))
            ctx.outcome('error ' + names)
            ctx.true(key + ':rejected', err is not None and isinstance(err, tuple(why)),
                     f'expected {names}, got {err!r}')
            continue
        if not ctx.true(key + ':accepted', err is None, f'expected a calibration, got {err!r}'):
            continue
        ctx.outcome('calibrated')
        verify(ctx, key, R, sol, full_a, method)
        want = bool(v['DeltaN_reh'] < 0 or v['N_reh'] > v['N0'])
        ctx.true(key + ':warning', warned == want, f'PrimpyWarning issued: {warned}, expected {want}')


ATTR = ['N_star', 'N_dagg', 'DeltaN_minus1', 'DeltaN_reh', 'w_reh', 'rho_reh_GeV', 'rho_reh_mp4', 'N_end', 'N_reh', 'N_cross',
        'N_beg', 'delta_N_calib', 'N0', 'Omega_K0', 'a0_Mpc', '_logaH_star', 'A_s', 'n_s', 'r']


def run_equiv(case, ctx, sol, R, tag):
    """Different argument sets describing the same universe."""
    K, h = case['K'], 0.7
    base = dict(h=None if K == 0 else h)
    starts = [('reheating', {})]
    starts += [('reheating', dict(w_reh=w, DeltaN_reh=d)) for w in (-1 / 3, -0.1, 0., 0.2, 0.6, 1.) for d in (0.5, 5., 12.)]
    starts += [('reheating', dict(w_reh=w, rho_reh_GeV=r)) for w in (-1 / 3, -0.1, 0., 0.2, 0.6, 1.) for r in (1e3, 1e9, 1e15)]
    if K == 0:
        starts += [('N_star', dict(N_star=N, rho_reh_GeV=r)) for N in (50., 55., 61.) for r in (1e3, 1e9, 1e13)]
        starts += [('N_star', dict(N_star=N, w_reh=w)) for N in (50., 55., 61.) for w in (-0.2, 0., 0.7, 1.)]
        starts += [('reheating', dict(DeltaN_minus1=d, rho_reh_GeV=r)) for d in (-3., 4.) for r in (1e3, 1e9, 1e13)]
    else:
        starts += [('Omega_K0', dict(Omega_K0=-K * o, rho_reh_GeV=r)) for o in (1e-2, 1e-6, 1e-12) for r in (1e3, 1e9, 1e13)]
    for g in (100., 10.75):
        for m, a in starts:
            key = f"{tag}:equiv:{m}:{','.join(f'{k}={x:.6g}' for k, x in a.items())}:g={g}"
            err, _ = call(sol, m, dict(base, g_th=g, **a))
            ctx.ev()
            if err is not None:
                ctx.outcome('equiv start ' + type(err).__name__)
                continue
            ref = {n: float(getattr(sol, n)) for n in ATTR}
            w, dN, rho, dm = ref['w_reh'], ref['DeltaN_reh'], ref['rho_reh_GeV'], ref['DeltaN_minus1']
            alts = []
            if abs(w - 1 / 3) > 1e-9 and w >= -1 / 3 and dN >= 0:
                if dN > 0:
                    alts.append(('reheating', dict(w_reh=w, DeltaN_reh=dN)))
                alts.append(('reheating', dict(w_reh=w, rho_reh_GeV=rho)))
                if K == 0 and dm / (1 - 3 * w) > 1e-9:
                    alts.append(('N_star', dict(N_star=ref['N_star'], w_reh=w)))
            if K == 0:
                if abs(dN) > 1e-9:
                    alts.append(('N_star', dict(N_star=ref['N_star'], rho_reh_GeV=rho)))
                    if dm != 0:
                        alts.append(('reheating', dict(DeltaN_minus1=dm, rho_reh_GeV=rho)))
            elif abs(dN) > 1e-9:
                alts.append(('Omega_K0', dict(Omega_K0=ref['Omega_K0'], rho_reh_GeV=rho)))
            if m == 'reheating' and not a:
                alts += [('reheating', x) for x in (dict(w_reh=1 / 3), dict(DeltaN_reh=0.), dict(DeltaN_minus1=0.),
                                                    dict(w_reh=1 / 3, DeltaN_reh=0.), dict(DeltaN_reh=0., DeltaN_minus1=0.),
                                                    dict(w_reh=1 / 3, DeltaN_minus1=0.),
                                                    dict(w_reh=1 / 3, DeltaN_reh=0., DeltaN_minus1=0.))]
            for m2, a2 in alts:
                k2 = f"{key}=={m2}:{','.join(a2)}"
                err, _ = call(sol, m2, dict(base, g_th=g, **a2))
                ctx.ev()
                if err is not None:
                    # a derived N_star may sit exactly on a boundary of what is allowed
                    ctx.true(k2, False, f'same universe described by {a2} rejected: {err!r}')
                    continue
                ctx.outcome('equivalent')
                for n in ATTR:
                    got, want = float(getattr(sol, n)), ref[n]
                    tol = 1e-6 * max(1e-3 if n not in ('A_s', 'Omega_K0', 'rho_reh_mp4') else 0, abs(want))
                    ctx.true(f'{k2}:{n}', abs(got - want) <= tol, f'{n}: {want!r} from {m} {a}, {got!r} from {m2} {a2}')


def run_instant(ctx):
    from primpy.reheating import is_instant_reheating
    vals = dict(N_star=[None, 55., 0.], rho=[None, 1e9, 0.], w=[None, 1 / 3, 0.3333, 0, -1 / 3, 1], dN=[None, 0, 0., 1e-9, 5.],
                dm=[None, 0, 0., -1e-9, 3.])
    for Ns, rho, w, dN, dm in itertools.product(*vals.values()):
        key = f'instant:N_star={Ns},rho={rho},w={w},dN={dN},dm={dm}'
        want = False if Ns is not None else instant(w, dN, rho, dm)
        try:
            got = is_instant_reheating(Ns, rho, w, dN, dm)
        except ValueError:
            got = 'contradiction'
        ctx.ev()
        ctx.outcome(f'instant {want}')
        ctx.true(key, got == want and (want == 'contradiction' or got in (True, False)), f'got {got!r}, expected {want!r}')


# what a calibration says about reheating and the power-law parameters, where it says anything
COPIED = ('DeltaN_minus1', 'DeltaN_reh', 'w_reh', 'rho_reh_GeV', 'rho_reh_mp4', 'A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r')


def run_background(case, ctx):
    """Copying a flat calibration from another solution of the same universe."""
    cfg = case['cfg']
    for f1, f2 in itertools.product('TN', 'TN'):
        if cfg == 'sr' and f1 != f2:  # slow-roll conditions neglect the kinetic energy differently: not the same universe
            continue
        b1 = build(cfg, 0, f1)
        b2 = build(cfg, 0, f2)
        R, R1 = Ref(b2, 0), Ref(b1, 0)
        for m, a in [('N_star', dict(N_star=0.6 * R.N_tot)), ('N_star', dict(N_star=0.5 * R.N_tot, rho_reh_GeV=1e9)),
                     ('reheating', {}), ('reheating', dict(w_reh=0., DeltaN_reh=3.))]:
            key = f'background:{cfg}:{f1}->{f2}:{m}:{",".join(a)}'
            err, _ = call(b1, m, a)
            if err is not None:
                ctx.outcome('background start ' + type(err).__name__)
                continue
            Ns = b1.N_star
            for bad in (None, -Ns, 0., Ns + 1, Ns * 1.01):
                err, _ = call(b2, None, dict(background=b1, N_star=bad))
                ctx.ev()
                ctx.true(f'{key}:N_star={bad}', isinstance(err, ValueError), f'expected ValueError, got {err!r}')
            err, _ = call(b2, None, dict(background=b1, N_star=Ns, Omega_K0=0.1))
            ctx.true(f'{key}:Omega_K0', isinstance(err, ValueError), f'expected ValueError, got {err!r}')
            err, _ = call(b2, None, dict(background=b1, N_star=Ns))
            ctx.ev()
            if not ctx.true(key, err is None, f'{err!r}'):
                continue
            ctx.outcome('copied')
            for n in ('N_star', 'N_cross', 'N_end', 'delta_N_calib', '_logaH_star', 'a0_Mpc', 'N_reh', 'N0', 'a0', 'Omega_K0'):
                x, y = float(getattr(b1, n)), float(getattr(b2, n))
                ctx.true(f'{key}:{n}', x == y or np.isnan(x) and np.isnan(y) or abs(x - y) < 1e-9 * abs(x),
                         f'{n}={y!r}, background has {x!r}')
            for n in COPIED:
                if n in b1 and not ctx.true(f'{key}:has {n}', n in b2, f'{n} of the background was not copied'):
                    continue
                if n in b1:
                    x, y = float(getattr(b1, n)), float(getattr(b2, n))
                    ctx.true(f'{key}:{n}', np.isnan(x) and np.isnan(y) or abs(x - y) <= 1e-6 * abs(x),
                             f'{n}={y!r}, background has {x!r}')
            ctx.true(f'{key}:N_dagg', abs(b2.N_dagg - b1.N_dagg) < 1e-5, f'{b2.N_dagg!r} vs {b1.N_dagg!r}')
            arrays(ctx, key, R, b2, 2 * R1.err(b1._N_cross) + 1e-5)
