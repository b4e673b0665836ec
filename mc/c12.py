"""C12: mode equations and vacua in t and N against the Newtonian-gauge potential equation solved as Taylor series."""
import itertools

import mpmath as mp
import numpy as np

from mc import jet as J, pots
from mc.c04 import flow, vcoef, M

PID, LEVEL = 'C12', 'exploration'
TECHNIQUE = "bounded exhaustive exploration of background states and wavenumbers on the real mode classes, independent derivation as oracle"
NOTE = ("every potential x K x initial state x time variable x wavenumber x scalar/tensor x vacuum on the lattice is executed on "
        "real background solutions; the scalar oracle eliminates the Newtonian potential, which primpy never uses; states "
        "between lattice points are not covered")
RULE = ("complete product potential x K x curvature fraction x phi_i x velocity x {t, N} x step index x k; non-trivial: a coefficient or a vacuum "
        "value was compared with the oracle")
ASSUMPTIONS = ["Mukhanov-Sasaki wavenumber k^2 + k K (K+1) as in the literature primpy follows",
               "vacua 'k', 'HD', 'RST' are the literature's definitions with z = a phi' / H",
               "HD is undefined (nan) where its frequency squared is negative",
               "within 1% of the pole of the closed scalar equation nothing is compared"]
CASE_TIMEOUT = 300

# name, kwargs, reference kwargs, field values
POTS = {
    'QuadraticPotential': ({}, dict(p=2), (0.4, 4., 15., -4.)),
    'StarobinskyPotential': ({}, {}, (0.5, 2.5, 6., -0.4)),
    'NaturalPotential': (dict(phi0=30.), dict(phi0=30.), (3., 12., 27.)),
    'TmodelPotential': (dict(p=2, alpha=1.), dict(p=2, alpha=1.), (0.7, 5., -0.9)),
    'DoubleWell2Potential': (dict(phi0=20.), dict(phi0=20., p=2), (4., 16.)),
    'QuarticPotential': ({}, dict(p=4), (1.2, 20.)),
    'StarobinskyTanhStepPotential': (dict(phi_feature=5., a_feature=1e-2, b_feature=0.1),
                                     dict(phi_feature=5., a_feature=1e-2, b_feature=0.1), (5.03, 4.9)),
}
US = (-6., -1.3, -0.02, 0.3)


def cases(tier, seed):
    T = tier == 'thorough'
    out = []
    names = list(POTS) if T else list(POTS)[:4] + list(POTS)[-1:]
    for n, K, f in itertools.product(names, (0, -1, 1), 'TN'):
        for N0 in ((-1., 0.05, 0.4, 1., 2., 8.) if T else (0.05, 0.6, 2.)):
            out.append(dict(kind='coef', pot=n, K=K, form=f, N=N0))
    for K, f in itertools.product((0, -1, 1), 'TN'):
        out.append(dict(kind='grid', K=K, form=f))
    return out


def background(pot, K, form, N0, phi, u, opts=(), dN=0.3):
    """A real solution through one arbitrary state, together with its equations."""
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.solver import solve
    from mc.bg import raw_ic
    V = float(pot.V(phi))
    pd = u * np.sqrt(V)
    H2 = (pd ** 2 / 2 + V) / 3 - K * np.exp(-2 * N0)
    if H2 <= 0.01 * V:
        return None
    H = np.sqrt(H2)
    if form == 'T':
        eq = InflationEquationsT(K, pot, track_eta='eta' in opts)
        x0, x1 = 3., 3. + dN / max(H, np.sqrt(V / 3))
    else:
        eq = InflationEquationsN(K, pot, track_time='t' in opts, track_eta='eta' in opts)
        x0, x1 = N0, N0 + dN
    st = {'phi': phi, 'dphidt': pd, 'dphidN': pd / H, '_N': N0, 't': 3., 'eta': 2.}
    return solve(raw_ic(eq, st, x0, x1), rtol=1e-10, atol=1e-14)


def state(sol, form, i, v, K):
    """(N, phi, dphi/dt) of a step, from the integrated variables only."""
    N, phi = float(sol._N[i]), float(sol.phi[i])
    if form == 'T':
        return N, phi, mp.mpf(float(sol.dphidt[i]))
    p = mp.mpf(float(sol.dphidN[i]))
    H2 = (v[0] / 3 - K * mp.exp(-2 * mp.mpf(N))) / (1 - p * p / 6)
    if not 0 < H2 < mp.mpf(10) ** 8 * v[0]:
        return N, phi, None
    return N, phi, p * mp.sqrt(H2)


def scalar(F, K, kc2):
    """(2 gamma, omega^2, size of omega^2) in cosmic time of the comoving curvature perturbation.

    The Newtonian potential obeys P'' + (H - 2 f''/f') P' + [(kc2 - 4K)/a^2 + 2 H' - 2 H f''/f'] P = 0 and
    R = P + 2 H (P' + H P) / f'^2 ; the second-order equation of R follows from two independent solutions.
    """
    NN, ph, H = F
    pd = ph.deriv()
    pdd = pd.deriv()
    dH = H.deriv()
    n = 2
    t = lambda j: j.trunc(n)
    a2 = J.exp(-2 * NN)
    c1 = t(H) - 2 * t(pdd) / t(pd)
    c0 = t(a2) * (kc2 - 4 * K) + 2 * t(dH) - 2 * t(H) * t(pdd) / t(pd)
    out = []
    for P0, P1 in ((1, 0), (0, 1)):
        P = [mp.mpf(P0), mp.mpf(P1) * H.c[0]]
        for k in range(3):
            d1 = [(i + 1) * P[i + 1] for i in range(k + 1)]
            s = sum(c1.c[i] * d1[k - i] for i in range(k + 1)) + sum(c0.c[i] * P[k - i] for i in range(k + 1))
            P.append(-s / ((k + 1) * (k + 2)))
        Pj = J.Jet(P)
        R = t(Pj) + 2 * t(H) / (t(pd) * t(pd)) * (t(Pj.deriv()) + t(H) * t(Pj))
        out.append((R.d(0), R.d(1), R.d(2)))
    (r, r1, r2), (s, s1, s2) = out
    det = r1 * s - s1 * r
    return -(r2 * s - s2 * r) / det, -(r1 * s2 - s1 * r2) / det


def tensor(F, K, kc2):
    NN, ph, H = F
    return 3 * H.c[0], (kc2 + 2 * K) * mp.exp(-2 * NN.c[0])


def vacua(F, K, k, sc):
    """{vacuum: (u, du/dt)} from the definitions, z'' taken from the Taylor series."""
    NN, ph, H = F
    n = 2
    t = lambda j: j.trunc(n)
    a = J.exp(NN)
    z = t(a) * t(ph.deriv()) / t(H) if sc else t(a) / 2
    z0, z1, z2 = z.d(0), z.d(1), z.d(2)
    a0, H0 = a.c[0], H.c[0]
    k = mp.mpf(k)
    u = 1 / mp.sqrt(2 * k) / z0
    out = {'RST': (u, -1j * k / a0 * u), 'k': (u, (-1j * k / a0 - z1 / z0) * u)}
    zz = a0 ** 2 * (z2 + H0 * z1) / z0          # z''/z in conformal time
    w2 = k ** 2 - zz
    if w2 > 1e-9 * (k ** 2 + abs(zz)):
        w = mp.sqrt(w2)
        u = 1 / mp.sqrt(2 * w) / z0
        out['HD'] = (u, (-1j * w / a0 - z1 / z0) * u)
    elif w2 < -1e-9 * (k ** 2 + abs(zz)):
        out['HD'] = None
    return out, abs(z1 / z0) + abs(ph.c[2] * 2 / ph.c[1]) + H0, (k ** 2 + abs(zz)) / max(abs(w2), mp.mpf('1e-300'))


def run(case, ctx):
    if case['kind'] == 'grid':
        return run_grid(case, ctx)
    import primpy.potentials as pp
    from primpy.time.perturbations import PerturbationT
    from primpy.efolds.perturbations import PerturbationN
    n, K, form, N0 = case['pot'], case['K'], case['form'], case['N']
    kw, ref, phis = POTS[n]
    Vref = pots.reference(n)
    P = PerturbationT if form == 'T' else PerturbationN
    T = ctx.tier == 'thorough'
    for Lam in ((1., 0.003) if T else (0.003,)):
        pot = getattr(pp, n)(Lambda=Lam, **kw)
        for (phi, u), opt in itertools.product(itertools.product(phis, US), ((), ('t', 'eta')) if T else ((),)):
            if form == 'N' and abs(u) > 5 and K == 1:
                continue
            sol = background(pot, K, form, N0 - 0.5 * float(np.log(pot.V(phi) / 3)), phi, u, opt)
            if sol is None:
                ctx.outcome('H^2 not safely positive')
                continue
            L = sol.x.size
            assert L > 3, L
            idx = (0, L // 2, L - 1) if T else (0, L // 2)
            for i in idx:
                v = vcoef(Vref, ref, float(sol.phi[i]), Lam, M + 1)
                N, ph, pd = state(sol, form, i, v, K)
                F = pd is not None and flow(v, N, ph, pd, K)
                if not F or abs(pd) < 1e-6 * mp.sqrt(v[0]) or F[2].c[0] ** 2 < 0.01 * v[0]:
                    ctx.outcome('state degenerate')
                    continue
                aH = float(mp.exp(N) * F[2].c[0])
                ks = [0.3, 1., 2., 3.7, 40., 3e3] if K else [1e-3 * aH, 0.7 * aH, 50 * aH]
                ks += [200. * aH, 3 * aH] if T and K else []
                for k in ks:
                    one(ctx, f'{n}:K={K}:{form}:Lambda={Lam:g}:N={N0}:phi={phi}:u={u}:i={i}:k={k:.6g}', sol, P, form, i, L, F, K, k,
                        pd, v)


def one(ctx, tag, sol, P, form, i, L, F, K, k, pd, v):
    NN, ph, H = F
    H0, dH = H.c[0], H.d(1)
    k_ = mp.mpf(k)
    kc2 = k_ ** 2 + k_ * K * (K + 1)
    E = pd ** 2 / (2 * H0 ** 2)
    kap = kc2 - 3 * K
    j = min(i + 3, L - 1)
    p = P(background=sol, k=k, vacuum=('k', 'HD', 'RST'), idx_beg=i, idx_end=j)
    amp = 1 + abs(kap) / max(abs(kap + K * E), mp.mpf('1e-300'))
    for mode, sc in ((p.scalar, True), (p.tensor, False)):
        nm = 's' if sc else 't'
        w = np.asarray(mode.ms_frequency)
        g = np.asarray(mode.ms_damping)
        if not ctx.true(f'{tag}:{nm}:shape', w.shape == g.shape == (j + 1 - i,), f'{w.shape}, {g.shape} for {j + 1 - i} steps'):
            continue
        if sc and abs(kap + K * E) < 0.01 * (abs(kap) + abs(K) * E):
            ctx.outcome('near the pole')
            continue
        g2, w2 = (scalar if sc else tensor)(F, K, kc2)
        sg = abs(H0) * (6 + amp * 2 * (3 + abs(v[1] / (H0 * pd)) + E + 1 / (mp.exp(2 * NN.c[0]) * H0 ** 2)))
        sw = mp.exp(-2 * NN.c[0]) * (abs(kap) + abs(K) * (3 + sg / H0))
        # H^2 itself may come out of a cancellation between energy and curvature
        canc = 1 + (abs(K) * mp.exp(-2 * NN.c[0]) + v[0] / 3) / H0 ** 2
        if form == 'N':
            g2, w2 = g2 / H0 + dH / H0 ** 2, w2 / H0 ** 2
            sg, sw = sg / H0 + 4 + abs(dH) / H0 ** 2, sw / H0 ** 2 * (1 + 3)
            canc *= 1 + 6 / abs(6 - 2 * E)
        tol = 3e-12 * float(canc * amp)
        gw = complex(w[0]) ** 2
        ctx.close(f'{tag}:{nm}:damping', 2 * float(g[0].real), float(g2), 1e-10, tol * float(sg), '2*damping')
        ctx.close(f'{tag}:{nm}:frequency', gw.real, float(w2), 1e-10, tol * float(sw), 'frequency^2')
        ctx.true(f'{tag}:{nm}:real', abs(gw.imag) <= 1e-9 * abs(gw) + tol * float(sw), f'frequency^2={gw}')
        ctx.outcome(f'{nm} frequency^2 {"positive" if w2 > 0 else "not positive"}')
        vac, rate, ill = vacua(F, K, k, sc)
        for name, want in vac.items():
            u, du = getattr(mode, f'get_vacuum_ic_{name}')()
            u, du = complex(u), complex(du)
            key = f'{tag}:{nm}:{name}'
            if want is None:
                ctx.true(key, np.isnan(u) and np.isnan(du), f'{u}, {du} although the HD frequency is imaginary')
                ctx.outcome('HD undefined')
                continue
            fac = H0 if form == 'N' else 1
            wu, wd = complex(want[0]), complex(want[1] / fac)
            t2 = 1e-10 + 3e-13 * float(canc * (ill if name == 'HD' else 1))
            sd = abs(wd) + abs(wu) * float(rate / fac)
            ctx.true(key, abs(u - wu) <= t2 * abs(wu) and abs(du - wd) <= 10 * t2 * sd,
                     f'initial value {u}, slope {du}; expected {wu}, {wd}')
            # Wronskian: z^2 a (u* du/dt - c.c.) = -i
            z = float(mp.exp(NN.c[0]) * (pd / H0 if sc else mp.mpf(1) / 2))
            W = z ** 2 * float(mp.exp(NN.c[0]) * fac) * (np.conj(u) * du - u * np.conj(du))
            ctx.true(f'{key}:wronskian', abs(W + 1j) <= 100 * t2, f'Wronskian {W}')


def run_grid(case, ctx):
    """Slices, defaults and dense-output grids over every (begin, end) pair of a short solution."""
    import primpy.potentials as pp
    from primpy.time.perturbations import PerturbationT
    from primpy.efolds.perturbations import PerturbationN
    K, form = case['K'], case['form']
    P = PerturbationT if form == 'T' else PerturbationN
    sol = background(pp.StarobinskyPotential(Lambda=0.003), K, form, 12.6, 6., -0.02, dN=1.5)
    sol.N = sol._N - 3.     # the calibrated number of e-folds
    L = sol.x.size
    k = float(10 * np.exp(sol._logaH[0]))
    full = P(background=sol, k=k)
    ref = {}
    for nm in ('scalar', 'tensor'):
        m = getattr(full, nm)
        ref[nm] = (np.asarray(m.ms_frequency), np.asarray(m.ms_damping))
        ctx.true(f'{K}:{form}:{nm}:default', ref[nm][0].shape == (L,) and ref[nm][1].shape == (L,),
                 f'default range has {ref[nm][0].shape} of {L} steps')
        ctx.true(f'{K}:{form}:{nm}:norm', np.isclose(m.pps_norm, k ** 3 / (2 * np.pi ** 2) * (1 if nm == 'scalar' else 2), rtol=1e-12),
                 f'power normalisation {m.pps_norm}')
    lim = L - 1 if ctx.tier == 'thorough' else min(L - 1, 9)
    pairs = [(i, j) for i in range(lim + 1) for j in range(i, lim + 1)] + [(0, L - 1), (L // 2, L - 1)]
    for i, j in pairs:
        for ne in (0, 1, 2, 7):
            tag = f'{K}:{form}:{i}-{j}:num_eval={ne}'
            p = P(background=sol, k=k, idx_beg=i, idx_end=j, num_eval=ne)
            for nm in ('scalar', 'tensor'):
                m = getattr(p, nm)
                ctx.true(f'{tag}:{nm}:slice', np.allclose(m.ms_frequency, ref[nm][0][i:j + 1], rtol=1e-12, atol=0)
                         and np.allclose(m.ms_damping, ref[nm][1][i:j + 1], rtol=1e-12, atol=0)
                         and len(m.ms_frequency) == j + 1 - i, 'coefficients are those of the steps of the range')
                for vac in ('k', 'HD', 'RST'):
                    a = getattr(m, f'get_vacuum_ic_{vac}')()
                    b = getattr(getattr(P(background=sol, k=k, idx_beg=i), nm), f'get_vacuum_ic_{vac}')()
                    ctx.true(f'{tag}:{nm}:{vac}', np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True), f'{a} vs {b}')
                if ne == 0:
                    ctx.true(f'{tag}:{nm}:x_eval', m.x_eval is None, f'{m.x_eval}')
                    continue
                x = np.asarray(m.x_eval)
                lo, hi = float(sol.x[i]), float(sol.x[j])
                eps = 1e-12 * (abs(lo) + abs(hi))
                ctx.true(f'{tag}:{nm}:x_eval', x.shape == (ne,) and abs(x[0] - lo) <= eps and (ne == 1 or abs(x[-1] - hi) <= eps)
                         and np.all(np.diff(x) >= -eps) and (ne < 2 or i == j or np.all(np.diff(x) > 0))
                         and x.min() >= lo - eps and x.max() <= hi + eps, f'grid {x} for [{lo}, {hi}]')
    for ne in (1, 5):
        p = P(background=sol, k=k, num_eval=ne)
        for nm in ('scalar', 'tensor'):
            x = np.asarray(getattr(p, nm).x_eval)
            ctx.true(f'{K}:{form}:{nm}:default grid', x.shape == (ne,) and (ne == 1 or abs(x[-1] / sol.x[-1] - 1) < 1e-12), f'{x}')
    ctx.outcome('grids')
