"""C13: solve_oscode treats every wavenumber and vacuum on its own and returns the power of the mode equation's solution."""
import itertools
import math
import warnings

import mpmath as mp
import numpy as np

from mc import pots
from mc.c04 import flow, vcoef, M
from mc.c11 import CFG, solution
from mc.c12 import scalar as ms_scalar, vacua as ms_vacua

PID, LEVEL = 'C13', 'exploration'
TECHNIQUE = "exhaustive enumeration of wavenumber lists, vacuum tuples and options on the real solver, differential and reference oracle"
NOTE = ("every list up to length 3 over a wavenumber alphabet, every ordered vacuum subset, container and option combination of the "
        "lattice is executed; each answer is compared with the single-mode answer exactly and with an independent mode integration "
        "within the solver's accuracy; other wavenumbers and deeper lists are not covered")
RULE = ("all lists of length <= 3 (thorough 4) over 4 wavenumbers x all 16 vacuum tuples x containers x fac_beg x fac_end x num_eval "
        "x y0 x {t, N} x K x background; non-trivial: a spectrum value was compared")
ASSUMPTIONS = ["pyoscode interpolates the background linearly between its steps: reference agreement is asked to 3 per cent (20 per cent after a long kinetic phase)",
               "pyoscode is trusted to solve the equation it is given",
               "a wavenumber of zero, below zero or not finite may give nan or an error"]
CASE_TIMEOUT = 400
VACS = ('k', 'HD', 'RST')
TUPLES = [t for n in (1, 2, 3) for t in itertools.permutations(VACS, n)]
BG = [('staro', 0, 'T'), ('staro', 0, 'N'), ('staro', 1, 'T'), ('quad', 1, 'N'), ('quad', -1, 'T'), ('staro', -1, 'N'),
      ('kinetic', 0, 'T'), ('kinetic', 0, 'N'), ('kinetic', 1, 'N'), ('kinetic', -1, 'T'), ('quad>', 0, 'T'), ('staro>', 1, 'N')]


def cases(tier, seed):
    T = tier == 'thorough'
    bgs = list(BG)
    if T:
        bgs = [(c, K, f) for c in list(CFG) + ['kinetic', 'kinetic2'] for K in (0, 1, -1) for f in 'TN']
    deep = [('kinetic4', 0, f) for f in ('TN' if T else 'T')]
    out = [dict(kind='combine'), dict(kind='oracle')]
    for c, K, f in bgs:
        b = dict(cfg=c, K=K, form=f)
        out += [dict(kind=k, **b) for k in ('lists', 'vacua', 'containers', 'errors')]
        if K == 1:
            out.append(dict(kind='drop', **b))
    for c, K, f in bgs + deep + ([] if T else [('natural', 0, 'T'), ('quad', 0, 'N')]):
        b = dict(cfg=c, K=K, form=f)
        for fb in (0, 30, 100) if T else (0, 30):
            out.append(dict(kind='reference', fac_beg=fb, **b))
        out.append(dict(kind='options', **b))
    out += [dict(kind='deep', cfg='kinetic5', K=K, form='T') for K in ((0, 1, -1) if T else (0,))]
    return out


_bg = {}
DEEP = ('kinetic4', 'kinetic5')     # oscillations of order one per step of the background while kinetic energy dominates
KIN = {'kinetic': (-8., 8.), 'kinetic2': (-100., 10.), 'kinetic4': (-3e4, 14.2), 'kinetic5': (-1e7, 20.)}    # initial dphi/dt in sqrt(V), phi


def background(case, n=None):
    key = case['cfg'], case['K'], case['form'], n
    if key in _bg:
        return _bg[key]
    cfg, K, form = key[:3]
    n = n or (16000 if cfg in DEEP else 4000)
    if cfg in KIN:
        sol, pot = kinetic(K, form, n, *KIN[cfg])
    else:
        sol, _, pot = solution(cfg, K, form, n=n)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sol.calibrate_scale_factor(**(dict(N_star=50.) if K == 0 else dict(Omega_K0=-K * 0.01, h=0.7)))
    _bg[key] = sol, pot
    return sol, pot


def kinetic(K, form, n, u, phi):
    import primpy.potentials as pp
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.events import InflationEvent
    from primpy.solver import solve
    from mc.bg import raw_ic
    pot = pp.StarobinskyPotential(Lambda=3.3e-3)
    eq = (InflationEquationsT if form == 'T' else InflationEquationsN)(K, pot)
    V = float(pot.V(phi))
    N0 = 12.5
    pd = u * np.sqrt(V)
    H = np.sqrt((pd ** 2 / 2 + V) / 3 - K * np.exp(-2 * N0))
    st = {'phi': phi, 'dphidt': pd, 'dphidN': pd / H, '_N': N0}
    x0 = 1 / (3 * H) if form == 'T' else N0
    ev = lambda: [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=True)]
    opt = dict(rtol=1e-12, atol=1e-16, method='DOP853')
    sol = solve(raw_ic(eq, st, x0, 1e300), events=ev(), **opt)
    x = np.interp(np.linspace(sol._N[0], sol._N[-1], n), sol._N, sol.x)
    x[-1] = sol.x[-1]
    return solve(raw_ic(eq, st, x0, sol.x[-1] * (1 + 1e-9)), events=ev(), t_eval=x, **opt), pot


def alphabet(sol, K):
    """Four wavenumbers from around the first horizon scale to deep inside it."""
    aH0 = float(np.exp(np.min(sol._logaH)))
    if K:
        return [1., 3., 7.5, 40.]
    return [0.3 * aH0, 2. * aH0, 11. * aH0, 70. * aH0]


def get(p, vac):
    """(P_s, P_t) of a single-mode answer."""
    return [float(getattr(p.scalar, f'P_s_{vac}')), float(getattr(p.tensor, f'P_t_{vac}'))]


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def tag(case):
    return f"{case['cfg']}:K={case['K']}:{case['form']}"


def singles(sol, ks, vacuum=VACS, **kw):
    from primpy.oscode_solver import solve_oscode
    return {k: {v: get(solve_oscode(sol, k, vacuum=(v,), **kw), v) for v in vacuum} for k in ks}


def same(a, b):
    return (a == b) or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-8 * abs(b)


def run_lists(case, ctx):
    from primpy.oscode_solver import solve_oscode
    from primpy.parameters import K_STAR
    sol, _ = background(case, 1500)
    ks = alphabet(sol, case['K'])
    one = singles(sol, ks)
    snap = {k: np.array(v, copy=True) for k, v in sol.items() if isinstance(v, np.ndarray) and v.dtype != object}
    for n in range(1, 5 if ctx.tier == 'thorough' else 4):
        for idx in itertools.product(range(4), repeat=n):
            arr = np.array([ks[i] for i in idx])
            given = arr.copy()
            P = solve_oscode(sol, arr, vacuum=VACS)
            t = f'{tag(case)}:list={idx}'
            ctx.true(f'{t}:k', np.array_equal(P.k, given) and np.array_equal(arr, given), f'{P.k} for {given}')
            ctx.close(f'{t}:k_iMpc', P.k_iMpc, given * K_STAR / math.exp(sol._logaH_star), 1e-12, 0, 'k_iMpc')
            for v in VACS:
                for j, sp in enumerate('st'):
                    got = np.asarray(getattr(P, f'P_{sp}_{v}'))
                    ctx.true(f'{t}:P_{sp}_{v}', got.shape == (n,) and all(same(g, one[ks[i]][v][j]) for g, i in zip(got, idx)),
                             f'{got} but alone {[one[ks[i]][v][j] for i in idx]}')
    # longer lists: more modes than any buffer or spacing rule of thumb, unordered, with repetitions
    for n, a in ((8, 3), (33, 7), (130, 11)):
        idx = [(a * i * i + i // 3) % 4 for i in range(n)]
        arr = np.array([ks[i] for i in idx])
        P = solve_oscode(sol, arr, vacuum=VACS)
        for v in VACS:
            for j, sp in enumerate('st'):
                got = np.asarray(getattr(P, f'P_{sp}_{v}'))
                bad = [i for i in range(n) if not same(got[i], one[arr[i]][v][j])] if got.shape == (n,) else ['shape']
                ctx.true(f'{tag(case)}:long={n}:P_{sp}_{v}', not bad, f'modes {bad[:9]} of {n} differ from those alone')
    ok = all(np.array_equal(v, sol[k], equal_nan=True) for k, v in snap.items())
    ctx.true(f'{tag(case)}:background', ok, 'the background was changed')
    ctx.outcome('lists')


def run_vacua(case, ctx):
    from primpy.oscode_solver import solve_oscode
    sol, _ = background(case, 1500)
    ks = alphabet(sol, case['K'])
    one = singles(sol, ks)
    for tup in TUPLES + [None]:
        for cont in (tuple, list) if tup else (tuple,):
            vs = cont(tup) if tup else None
            P = solve_oscode(sol, np.array(ks), vacuum=vs)
            for v in VACS:
                for j, sp in enumerate('st'):
                    key = f'{tag(case)}:{vs}:P_{sp}_{v}'
                    if v in (tup or ('RST',)):
                        got = getattr(P, f'P_{sp}_{v}')
                        ctx.true(key, all(same(g, one[k][v][j]) for g, k in zip(got, ks)), f'{got} but alone {[one[k][v][j] for k in ks]}')
            p = solve_oscode(sol, ks[1], vacuum=vs)
            for v in tup or ('RST',):
                ctx.true(f'{tag(case)}:{vs}:scalar {v}', all(same(a, b) for a, b in zip(get(p, v), one[ks[1]][v])), f'{get(p, v)}')
    ctx.outcome('vacua')


def run_containers(case, ctx):
    """The same wavenumbers handed over in every documented form, whole numbers as integers too."""
    from primpy.oscode_solver import solve_oscode
    sol, _ = background(case, 1500)
    ks = alphabet(sol, case['K'])
    ints = [1, 3, 40] if case['K'] else [int(round(k)) for k in ks[1:]]
    ints = [i for i in ints if i > 0]
    if case['K']:
        hi = int(np.exp(sol._logaH[0]) * 1e3) if case['cfg'] != 'staro' else 400
        ints.append(min(hi, 3000))
    else:       # cubes beyond 64 bits
        ints.append(int(min(5e6, np.exp(sol._logaH_end - 12))))
    ref = {i: solve_oscode(sol, float(i), vacuum=VACS, fac_beg=50) for i in ints}
    forms = {'float': float, 'int': int, 'np.float64': np.float64, 'np.int64': np.int64, 'np.int32': np.int32, '0-d': np.array}
    for i in ints:
        for nm, f in forms.items():
            p = solve_oscode(sol, f(i), vacuum=VACS, fac_beg=50)
            for v in VACS:
                want = get(ref[i], v)
                if hasattr(p, 'scalar'):
                    got = get(p, v)
                else:
                    got = [float(np.ravel(getattr(p, f'P_{s}_{v}'))[0]) for s in 'st']
                ctx.true(f'{tag(case)}:{nm}:{i}:{v}', all(same(a, b) for a, b in zip(got, want)), f'{got} but {want} for float')
    arrs = {'float array': np.array(ints, dtype=float), 'int array': np.array(ints, dtype=np.int64),
            'reversed view': np.array(ints[::-1], dtype=float)[::-1], 'list of float': [float(i) for i in ints],
            'tuple': tuple(float(i) for i in ints)}
    for nm, a in arrs.items():
        try:
            P = solve_oscode(sol, a, vacuum=VACS, fac_beg=50)
        except TypeError:
            if nm in ('list of float', 'tuple'):
                ctx.outcome('sequence rejected')
                continue
            raise
        for v in VACS:
            for j, s in enumerate('st'):
                got = getattr(P, f'P_{s}_{v}')
                ctx.true(f'{tag(case)}:{nm}:P_{s}_{v}', all(same(g, get(ref[i], v)[j]) for g, i in zip(got, ints)),
                         f'{got} but alone {[get(ref[i], v)[j] for i in ints]}')
    ctx.outcome('containers')


def run_errors(case, ctx):
    from primpy.oscode_solver import solve_oscode
    sol, _ = background(case, 1500)
    ks = alphabet(sol, case['K'])
    hi = float(np.exp(np.max(sol._logaH)))

    def expect(key, f, nan_ok=False):
        try:
            p = f()
        except Exception as e:
            ctx.true(key, not isinstance(e, (SystemExit, KeyboardInterrupt)), repr(e))
            ctx.outcome('error')
            return
        vals = get(p, 'RST') if hasattr(p, 'scalar') else [float(p.P_s_RST[0]), float(p.P_t_RST[0])]
        ctx.true(key, nan_ok and any(not np.isfinite(v) for v in vals), f'accepted, {vals}')
        ctx.outcome('nan')
    for fe in (100, 1, 1e4):
        for x in (1.01, 3., 1e5):
            expect(f'{tag(case)}:k={x}*last horizon/{fe}', lambda: solve_oscode(sol, x * hi / fe, fac_end=fe))
            expect(f'{tag(case)}:[k]={x}*last horizon/{fe}', lambda: solve_oscode(sol, np.array([x * hi / fe]), fac_end=fe))
    for k in (-1., float('nan'), float('inf')):
        expect(f'{tag(case)}:k={k}', lambda: solve_oscode(sol, k), nan_ok=True)
    for vs in (('spam',), ('RST', 'spam'), ('rst',)):
        expect(f'{tag(case)}:vacuum={vs}', lambda: solve_oscode(sol, ks[1], vacuum=vs))
    expect(f'{tag(case)}:tol', lambda: solve_oscode(sol, ks[1], tol=1e-4))


def run_drop(case, ctx):
    """Closed universes: k < 1 is set to 1e-30 when asked, and only then."""
    from primpy.oscode_solver import solve_oscode
    sol, _ = background(case, 1500)
    ks = [0.4, 0.97, 1., 1.5, 2., 2.7, 3., 5.]
    for vs in ((v,) for v in VACS):
        v = vs[0]
        for drop in (None, True, False):
            kw = {} if drop is None else dict(drop_closed_large_scales=drop)
            P = solve_oscode(sol, np.array(ks), vacuum=vs, **kw)
            Q = solve_oscode(sol, np.array(ks), vacuum=vs, drop_closed_large_scales=False)
            for i, k in enumerate(ks):
                t = f'{tag(case)}:{v}:drop={drop}:k={k}'
                g, q = float(getattr(P, f'P_s_{v}')[i]), float(getattr(Q, f'P_s_{v}')[i])
                if k < 1 and drop is not False:
                    ctx.true(t, g == 1e-30, f'{g} instead of 1e-30')
                    p = solve_oscode(sol, k, vacuum=vs, **kw)
                    ctx.true(f'{t}:scalar', float(getattr(p.scalar, f'P_s_{v}')) == 1e-30, 'single mode not dropped')
                else:
                    ctx.true(t, same(g, q) and not g == 1e-30, f'{g} but {q} without dropping')
                a, b = float(getattr(P, f'P_t_{v}')[i]), float(getattr(Q, f'P_t_{v}')[i])
                ctx.true(f'{t}:tensor', same(a, b), f'{a} but {b}')
    ctx.outcome('drop')


# -- reference integration ------------------------------------------------------------------------------------------

def coefs(K, k, sc, N, phi, p, V, dV):
    """Background acceleration and (2 gamma, omega^2) in e-folds; validated against the derivation of C12 in run_oracle."""
    k2 = K * math.exp(-2 * N)
    H2 = (V / 3 - k2) / (1 - p * p / 6)
    ok = k2 / H2
    e = p * p / 2
    dHH = -e + ok
    kc = k * k + k * K * (K + 1)
    d2 = -(3 + dHH) * p - dV / H2
    a2H2 = math.exp(2 * N) * H2
    if not sc:
        return d2, 3 + dHH, (kc + 2 * K) / a2H2
    kap = kc - 3 * K
    sh = 2 * kap / (kap + K * e) if kap else 0.
    t = e - 3 - dV / (H2 * p) - ok
    return d2, 3 + sh * t + dHH, (kap - K * (1 + sh * t)) / a2H2


def run_oracle(case, ctx):
    for n, kw, phi, K, u in itertools.product(('quad', 'staro'), (None,), (3., 9.), (0, 1, -1), (-3., -0.02)):
        name, kw, ref, _, _ = CFG[n]
        v = vcoef(pots.reference(name), ref, phi, kw['Lambda'], M + 1)
        N0 = 14.
        F = flow(v, N0, phi, u * mp.sqrt(v[0]), K)
        H = F[2].c[0]
        p = float(F[1].c[1] / H)
        for k in (1e-3, 0.3, 3., 40.):
            kc = mp.mpf(k) ** 2 + k * K * (K + 1)
            d2, g, w = coefs(K, k, True, N0, phi, p, float(v[0]), float(v[1]))
            g2, w2 = ms_scalar(F, K, kc)
            ctx.close(f'oracle:{n}:{phi}:{K}:{u}:{k}:g', g, float(g2 / H + F[2].d(1) / H ** 2), 1e-9, 1e-9, 'damping')
            ctx.close(f'oracle:{n}:{phi}:{K}:{u}:{k}:w', w, float(w2 / H ** 2), 1e-8, 1e-13, 'frequency')
    ctx.outcome('reference validated')


def modes(sol, pot, case, k, i, vac, Nend, Neval=None):
    """|u|^2 k^3/2pi^2 (scalar) and |u|^2 k^3/pi^2 (tensor) at Nend (and at Neval), from the vacuum at step i."""
    from scipy.integrate import solve_ivp
    cfg, K, form = case['cfg'], case['K'], case['form']
    name, kw, ref, _, _ = CFG[cfg if cfg in CFG else 'staro']
    N0, phi0 = float(sol._N[i]), float(sol.phi[i])
    v = vcoef(pots.reference(name), ref, phi0, kw['Lambda'], M + 1)
    H = float(sol.H[i])
    pd = float(sol.dphidt[i]) if form == 'T' else float(sol.dphidN[i]) * H
    F = flow(v, N0, phi0, pd, K)
    H = float(F[2].c[0])
    out = []
    for sc in (True, False):
        vs, _, ill = ms_vacua(F, K, k, sc)
        ic = vs.get(vac)
        if vac == 'HD' and (ill > 1e3 or vac not in vs):
            out.append('degenerate')
            continue
        if ic is None:
            out.append(None)
            continue
        u, du = complex(ic[0]), complex(ic[1]) / H
        s = abs(u)

        def rhs(N, y):
            d2, g, w = coefs(K, k, sc, N, y[0], y[1], float(pot.V(y[0])), float(pot.dV(y[0])))
            return [y[1], d2, y[3], -g * y[3] - w * y[2], y[5], -g * y[5] - w * y[4]]
        r = solve_ivp(rhs, (N0, Nend), [phi0, pd / H, u.real / s, du.real / s, u.imag / s, du.imag / s], rtol=1e-8, atol=1e-11,
                      method='DOP853', t_eval=None if Neval is None else np.append(Neval, Nend))
        P = (r.y[2] ** 2 + r.y[4] ** 2) * s * s * k ** 3 / (2 * np.pi ** 2) * (1 if sc else 2)
        out.append(P)
    return out


def klist(sol, case, T):
    K = case['K']
    lo = float(np.exp(np.min(sol._logaH)))
    if K:
        ks = [3., 10., 47., 300.] + ([2., 5., 20., 100., 1000.] if T else [])
        return [k for k in ks if k < 200 * float(np.exp(sol._logaH[0]))]
    return [lo * x for x in ([0.01, 0.5, 3., 20., 90.] + ([0.1, 1., 1.7, 7., 200.] if T else []))]


def run_reference(case, ctx):
    from primpy.oscode_solver import solve_oscode
    sol, pot = background(case)
    T = ctx.tier == 'thorough'
    fb = case['fac_beg']
    lnaH, N = sol._logaH, sol._N
    tol = 0.2 if case['cfg'] in DEEP else 0.03
    for k in klist(sol, case, T):
        t = f'{tag(case)}:fac_beg={fb}:k={k:.6g}'
        p = solve_oscode(sol, k, vacuum=VACS, fac_beg=fb)
        i = p.scalar.idx_beg
        # begin: the last time that the scale is within fac_beg of the horizon (the start if it never is)
        if fb == 0:
            ctx.true(f'{t}:begin', i == 0, f'starts at step {i}')
        else:
            inside = np.log(k) - lnaH > np.log(fb)
            want = np.flatnonzero(inside)[-1] if inside.any() else 0
            ctx.true(f'{t}:begin', abs(i - want) <= 1, f'starts at step {i} instead of {want}')
        frozen = np.flatnonzero((lnaH - np.log(k) > np.log(2e3)) & (N > N[i] + 5))
        frozen = frozen[frozen > np.argmin(lnaH)]
        Nend = float(N[frozen[0]])
        for vac in VACS:
            want = modes(sol, pot, case, k, i, vac, Nend)
            for sp, g, w in zip('st', get(p, vac), want):
                if isinstance(w, str):
                    continue
                if w is None:
                    ctx.true(f'{t}:P_{sp}_{vac}', np.isnan(g), f'{g} although the vacuum is undefined')
                    continue
                ctx.true(f'{t}:P_{sp}_{vac}', abs(g / w[-1] - 1) < tol, f'{g} but the mode equation gives {w[-1]} ({g / w[-1] - 1:.2g})')
                ctx.outcome('spectrum compared')


def run_options(case, ctx):
    """fac_end, dense output, tolerance, initial basis and even grids do not change the answer beyond their accuracy."""
    from primpy.oscode_solver import solve_oscode
    sol, pot = background(case)
    T = ctx.tier == 'thorough'
    K, form = case['K'], case['form']
    for k in klist(sol, case, False)[1:4]:
        base = solve_oscode(sol, k, vacuum=VACS)
        t = f'{tag(case)}:k={k:.6g}'

        f = 8 if case['cfg'] in DEEP else 1

        def agree(key, p, tol):
            tol *= f
            for vac in VACS:
                for sp, a, b in zip('st', get(p, vac), get(base, vac)):
                    ctx.true(f'{t}:{key}:P_{sp}_{vac}', (np.isnan(a) and np.isnan(b)) or abs(a / b - 1) < tol, f'{a} but {b} by default')
        for fe in (40, 400, 3000):
            agree(f'fac_end={fe}', solve_oscode(sol, k, vacuum=VACS, fac_end=fe), 0.01)
        for rt in (1e-4, 1e-6):
            agree(f'rtol={rt}', solve_oscode(sol, k, vacuum=VACS, rtol=rt), 0.06)
        y = base.background.potential.perturbation_ic
        for n, y0 in enumerate([(y[2], y[3], y[0], y[1]), tuple(3 * v for v in y), (-y[0], -y[1], y[2], y[3])]):
            agree(f'y0[{n}]', solve_oscode(sol, k, vacuum=VACS, y0=y0), 0.02)
        if form == 'N':
            even = np.allclose(np.diff(sol.x), np.diff(sol.x).mean(), rtol=1e-6)
            if even:
                agree('even_grid', solve_oscode(sol, k, vacuum=VACS, even_grid=True), 0.06)   # either within 3 per cent of the truth
                ctx.outcome('even grid')
        for ne, fb in ((3, 0), (40, 0), (3, 10), (40, 10)):
            p = solve_oscode(sol, k, vacuum=VACS, num_eval=ne, fac_beg=fb)
            if fb == 0:
                agree(f'num_eval={ne}', p, 0.01)
            else:
                q = solve_oscode(sol, k, vacuum=VACS, fac_beg=fb)
                for vac in VACS:
                    for sp, a, b in zip('st', get(p, vac), get(q, vac)):
                        ctx.true(f'{t}:num_eval={ne}:fac_beg={fb}:P_{sp}_{vac}', (np.isnan(a) and np.isnan(b)) or abs(a / b - 1) < 0.01 * f,
                                 f'{a} but {b} without dense output')
            x = np.asarray(p.scalar.x_eval)
            lo, hi = sol.x[p.scalar.idx_beg], sol.x[p.scalar.idx_end]
            grid = np.geomspace(lo, hi, ne) if form == 'T' else np.linspace(lo, hi, ne)
            for nm, m in (('scalar', p.scalar), ('tensor', p.tensor)):
                key = f'{t}:num_eval={ne}:fac_beg={fb}:{nm}'
                ctx.true(key + ':grid', np.shape(m.x_eval) == (ne,) and np.allclose(m.x_eval, grid, rtol=1e-9, atol=1e-9 * abs(hi)),
                         f'{m.x_eval[:3]}.. instead of {grid[:3]}..')
                if form == 'N':
                    shift = float(sol.N[0] - sol._N[0])
                    ctx.true(key + ':N_eval', np.allclose(m._N_eval, grid, rtol=1e-9, atol=1e-9) and
                             np.allclose(m.N_eval, grid + shift, rtol=1e-9, atol=1e-9), 'e-folds of the dense output')
                else:
                    ctx.true(key + ':t_eval', np.allclose(m.t_eval, grid, rtol=1e-9), 'times of the dense output')
            Nx = np.interp(x, sol.x, sol._N)
            for vac in VACS if T else ('RST', 'k'):
                want = modes(sol, pot, case, k, p.scalar.idx_beg, vac, float(Nx[-1]) + 1e-9, Nx)
                for sp, mode, w in zip('st', (p.scalar, p.tensor), want):
                    if w is None or isinstance(w, str):
                        continue
                    g = np.asarray(getattr(mode, f'P_{sp}_{vac}_eval'))
                    # early on the power is much larger than the frozen value and oscillates in phase: compare on the total scale
                    ctx.true(f'{t}:num_eval={ne}:fac_beg={fb}:P_{sp}_{vac}_eval', g.shape == (ne,) and np.all(np.abs(g - w[:-1]) <= f * 0.04 * w[:-1]
                                                                                          + f * 0.015 * w[-1]),
                             f'{g[:3]}..{g[-2:]} but {w[:3]}..{w[-3:-1]}; worst {np.max(np.abs(g / w[:-1] - 1)):.2g}')
    ctx.outcome('options')


def run_deep(case, ctx):
    """Modes entering the horizon late in a long kinetic phase are followed until they are frozen for good."""
    from primpy.oscode_solver import solve_oscode
    sol, pot = background(case)
    lo = float(np.exp(np.min(sol._logaH)))
    for x in (0.5, 3., 20., 90., 300., 1e3) if ctx.tier == 'thorough' else (0.5, 3., 20., 90.):
        k = lo * x
        far = solve_oscode(sol, k, vacuum=VACS, fac_end=3e4)
        for fe in (100, 1000):
            p = solve_oscode(sol, k, vacuum=VACS, fac_end=fe)
            for vac in VACS:
                for sp, a, b in zip('st', get(p, vac), get(far, vac)):
                    ctx.true(f'{tag(case)}:k={x}*aHmin:fac_end={fe}:P_{sp}_{vac}', (np.isnan(a) and np.isnan(b)) or abs(a / b - 1) < 0.04,
                             f'{a} but {b} when followed further')
    ctx.outcome('deep kinetic')


def run_combine(case, ctx):
    """Superposition on solutions known in closed form: any basis of the space gives the same power."""
    import primpy.potentials as pp
    from primpy.time.perturbations import PerturbationT
    from primpy.efolds.perturbations import PerturbationN
    from mc.c12 import background as short
    for K, form in itertools.product((0, 1, -1), 'TN'):
        sol = short(pp.StarobinskyPotential(Lambda=0.003), K, form, 12.6, 6., -0.02, dN=1.5)
        sol.N = sol._N
        P = PerturbationT if form == 'T' else PerturbationN
        k = float(20 * np.exp(sol._logaH[0]))
        rng = [(1, 0, 0, 1), (1, 0, 1, 1), (2, -1, 0.5, 3), (1e-3, 0, 0, 1e4), (1j, 0, 1, -1j), (1 + 2j, 1, 0, 1)]
        n = 12
        # two independent "true" solutions with a frozen tail, initial data (1,0) and (0,1)
        A = np.append(np.cos(np.linspace(0, 2, n - 5)), np.full(5, -0.7))
        B = np.append(np.sin(np.linspace(0, 2, n - 5)), np.full(5, 1.3))
        A[0], B[0] = 1., 0.
        dA, dB = np.zeros(n), np.zeros(n)
        dA[0], dB[0] = 0., 1.
        for vs, (a, b, c, d), ne in itertools.product(TUPLES, rng, (0, 4)):
            p = P(background=sol, k=k, vacuum=vs, idx_beg=2, idx_end=9, num_eval=ne)

            def mk(x, y, f):
                r = dict(types=[1] * n, t=list(range(n)), sol=list(f * (x * A + y * B)), dsol=list(f * (x * dA + y * dB)))
                if ne:
                    r['x_eval'] = list(f * (x * A + y * B)[:4])
                    r['dx_eval'] = list(f * (x * dA + y * dB)[:4])
                return r
            # tensors: another pair of functions
            p.oscode_postprocessing([mk(a, b, 1.), mk(c, d, 1.), mk(d, c, 2.), mk(b, a, 2.)], vacuum=vs)
            for mode, sp, nrm in ((p.scalar, 's', 1), (p.tensor, 't', 2)):
                for v in vs:
                    u, du = getattr(mode, f'get_vacuum_ic_{v}')()
                    fac = k ** 3 / (2 * np.pi ** 2) * nrm
                    want = abs(u * A[-1] + du * B[-1]) ** 2 * fac
                    key = f'combine:{K}:{form}:{vs}:{(a, b, c, d)}:{ne}:{sp}_{v}'
                    ctx.close(key, float(getattr(mode, f'P_{sp}_{v}')), float(want), 1e-9, 0, 'power of the superposition')
                    if ne:
                        ctx.close(f'{key}:eval', getattr(mode, f'P_{sp}_{v}_eval'), np.abs(u * A[:4] + du * B[:4]) ** 2 * fac,
                                  1e-9, 1e-9 * float(want), 'dense power')
    ctx.outcome('superposition')
