"""C18: a background trajectory does not depend on how its integration is organised."""
import itertools
import warnings

import numpy as np
from scipy.integrate import solve_ivp

PID, LEVEL = 'C18', 'model_checking'
TECHNIQUE = ("explicit-state exploration of all schedules of stops, restarts, directions and time variables on the real integrator, "
             "each visited state validated against a reference trajectory")
NOTE = ("the model is the reference trajectory with its checkpoints; a transition is one real primpy.solver.solve from the state "
        "reached so far to another checkpoint, forwards or backwards, in cosmic time or e-folds, stopped by x_end or by one of the "
        "events; every path up to the depth bound is executed and every reached state compared with the checkpoint; whole runs, "
        "samplings and rescalings are compared with the same kind of reference; other trajectories and longer paths are not covered")
RULE = ("trajectory x method x tracked variables x all paths of length 2 (thorough 3) over {target checkpoint} x {t, N} x {x_end, "
        "UntilN, UntilT, Phi0}; whole runs: potential x K x start x {t, N} x method; non-trivial: a state was compared")
ASSUMPTIONS = ["paths span at most about 1.5 e-folds, so that errors of backward integration grow by less than exp(5)",
               "the reference is a scipy integration of the Friedmann and Klein-Gordon equations in cosmic time at relative tolerance "
               "3e-14 (agreement of the equations with primpy's own is property C04)"]
CASE_TIMEOUT = 600

# name -> (potential, kwargs, K, N_i, phi_i, dphi/dt in sqrt(V), e-folds to the checkpoints)
TRAJ = {
    'kinetic-flat': ('QuadraticPotential', {}, 0, 2., 5., -5., (0.15, 0.4, 0.9)),
    'kinetic-closed': ('StarobinskyPotential', dict(Lambda=3.3e-3), 1, 15., 5.2, -4., (0.2, 0.5, 1.2)),
    'kinetic-open': ('QuarticPotential', {}, -1, -0.5, 5., -5., (0.15, 0.4, 0.9)),
    'start-closed': ('QuadraticPotential', {}, 1, 0., 4., -0.95, (0.3, 0.6, 1.1)),
    'start-open': ('NaturalPotential', dict(phi0=20.), -1, 0.5, 9., -1.05, (0.3, 0.7, 1.2)),
    'strong-closed': ('QuadraticPotential', {}, 1, -0.95, 4., -1.1, (0.03, 0.12, 0.5)),
    'slowroll-flat': ('StarobinskyPotential', dict(Lambda=3.3e-3), 0, 0., 5., -0.02, (0.3, 0.8, 1.5)),
    'uphill-flat': ('TmodelPotential', dict(p=2, alpha=1.), 0, 1., 1.5, 2., (0.1, 0.25, 0.45)),
    'end-flat': ('QuadraticPotential', {}, 0, 10., 1.3, -0.9, (0.05, 0.2, 0.35)),
    'dip-flat': ('StarobinskyGaussianDipPotential', dict(phi_feature=4.9, a_feature=1e-3, b_feature=0.02), 0, 0., 4.92, -0.02,
                 (0.3, 0.7, 1.2)),
    'oscillating-flat': ('QuadraticPotential', {}, 0, 10., 0.7, -1.4, (0.3, 0.6, 0.9)),
    'collapse-closed': ('QuadraticPotential', {}, 1, 0.6, 0.8, 1.5, (0.1, 0.2, 0.3)),
}
METHODS = {'RK45': 1e-11, 'DOP853': 1e-13, 'Radau': 1e-9, 'LSODA': 1e-11}
STOPS = ('x_end', 'UntilN', 'UntilT', 'Phi0')

# starts of whole runs: potential, kwargs, phi_i, e-folds for K=0,+-1
WHOLE = {
    'staro': ('StarobinskyPotential', dict(Lambda=3.3e-3), 5.9, (12., 12.7, 14.)),
    'quad': ('QuadraticPotential', dict(Lambda=0.0025), 15., (9., 9.7, 12.)),
    'natural': ('NaturalPotential', dict(Lambda=0.0055, phi0=50.), 15., (10., 11., 12.)),
    'hill': ('DoubleWell2Potential', dict(Lambda=0.005, phi0=30.), 15., (10., 11., 12.)),
    'tmodel': ('TmodelPotential', dict(Lambda=3.3e-3, p=1, alpha=1.), 6., (12., 13.)),
}


def cases(tier, seed):
    T = tier == 'thorough'
    out = []
    for c in TRAJ:
        for m in METHODS if T else ('RK45', 'DOP853'):
            for o in ((), ('eta',)) if T else ([('eta',)] if m == 'RK45' else [()]):
                for first in range(3):
                    out.append(dict(kind='paths', cfg=c, method=m, opts=list(o), first=first, depth=3 if T and m == 'RK45' else 2))
        for f in 'TN':
            out.append(dict(kind='sampling', cfg=c, form=f))
            out.append(dict(kind='scaling', cfg=c, form=f))
    for w in WHOLE:
        for K in (0, 1, -1):
            out.append(dict(kind='whole', cfg=w, K=K))
    return out


class Reference:
    """The trajectory in cosmic time, from Friedmann's equation and the field's equation."""

    def __init__(self, pot, K, N, phi, pd, t=1., eta=2.):
        self.pot, self.K = pot, K
        self.tau = 1 / np.sqrt(float(pot.V(phi)))       # time unit, so that all variables are of order one
        H2 = (pd ** 2 / 2 + float(pot.V(phi))) / 3 - K * np.exp(-2 * N)
        self.y0 = np.array([phi, pd * self.tau, N, t / self.tau, eta * np.exp(N) / self.tau, np.sqrt(H2) * self.tau])
        self.a0 = np.exp(N)

    def f(self, s, y):
        phi, pd, N, t, eta, H = y     # H is evolved too: it may pass through zero
        V, dV = float(self.pot.V(phi)) * self.tau ** 2, float(self.pot.dV(phi)) * self.tau ** 2
        k = self.K * (self.tau * np.exp(-N)) ** 2
        return [pd, -3 * H * pd - dV, H, 1., self.a0 * np.exp(-N), -pd ** 2 / 2 + k]

    def run(self, y, ds, **kw):
        if ds == 0:
            return y
        return solve_ivp(self.f, (0, ds), y, method='DOP853', rtol=3e-14, atol=1e-16, **kw).y[:, -1]

    def physical(self, y):
        phi, pd, N, s, e, H = y
        return dict(phi=phi, dphidt=pd / self.tau, _N=N, t=s * self.tau, eta=e * self.tau / self.a0, H=H / self.tau,
                    dphidN=pd / H)

    def until(self, y, g, ds=0.02, smax=1e7, skip=0):
        """y at the first sign change of g(y) from negative to positive"""
        ev = lambda s, y: g(y)
        ev.direction, ev.terminal = 1, True
        r = solve_ivp(self.f, (0, smax), y, method='DOP853', rtol=3e-14, atol=1e-16, events=ev)
        if r.status != 1:
            return None, r
        s, z = r.t[-1], r.y[:, -1]
        # polish: integrate exactly up to the root
        b = r.y[:, -2]
        lo, hi = 0., s - r.t[-2]
        for _ in range(60):
            mid = (lo + hi) / 2
            if g(self.run(b, mid)) < 0:
                lo = mid
            else:
                hi = mid
            if hi - lo < 1e-13 * max(1, abs(hi)):
                break
        return self.run(b, hi), r


def build(cfg):
    import primpy.potentials as pp
    cls, kw, K, N, phi, u, dN = TRAJ[cfg]
    kw = dict(Lambda=1., **kw) if 'Lambda' not in kw and 'Dip' not in cls else dict(kw)
    if 'Dip' in cls:
        kw['Lambda'] = 3.3e-3
    pot = getattr(pp, cls)(**kw)
    ref = Reference(pot, K, N, phi, u * np.sqrt(float(pot.V(phi))))
    pts = [ref.y0]
    for a, b in zip((0.,) + dN, dN):
        pts.append(ref.run(pts[-1], (b - a) / abs(pts[-1][5])))
    return pot, K, ref, pts


def start(eq, st, form, x_end):
    from mc.bg import raw_ic
    return raw_ic(eq, st, st['t'] if form == 'T' else st['_N'], x_end)


def equations(pot, K, form, eta):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    if form == 'T':
        return InflationEquationsT(K, pot, track_eta=eta)
    return InflationEquationsN(K, pot, track_time=True, track_eta=eta)


def last(sol, form, i=-1):
    """physical state at one step, from the named attributes"""
    H = float(sol.H[i])
    st = dict(phi=float(sol.phi[i]), _N=float(sol._N[i]), t=float(sol.t[i]), H=H)
    if form == 'T':
        st['dphidt'] = float(sol.dphidt[i])
        st['dphidN'] = st['dphidt'] / H
    else:
        st['dphidN'] = float(sol.dphidN[i])
        st['dphidt'] = st['dphidN'] * H
    if 'eta' in sol:
        st['eta'] = float(sol.eta[i])
    return st


def segment(ref, pts, i, j):
    """On the way between two checkpoints: (expands all the way, stays clear of V a^2 = 3K, phi is monotonic).

    e-folds as a time variable need H > 0, and that form of the equations is 0/0 where V a^2 = 3K, see DESIGN.md.
    """
    expands = clear = mono = True
    sign = np.sign(pts[i][1])
    for a, b in zip(pts[min(i, j):], pts[min(i, j) + 1:max(i, j) + 1]):
        ds = b[3] - a[3]
        r = solve_ivp(ref.f, (0, ds), a, method='DOP853', rtol=1e-10, atol=1e-12, max_step=ds / 200)
        V = np.array([float(ref.pot.V(p)) for p in r.y[0]]) * ref.tau ** 2
        k = 3 * ref.K * (ref.tau * np.exp(-r.y[2])) ** 2
        g = (V - k) / (V + abs(k) + r.y[1] ** 2 / 2)
        expands &= bool(np.all(r.y[5] > 0.05 * np.abs(pts[0][5])))
        clear &= bool(np.all(np.abs(g) > 0.01) and np.all(np.sign(g) == np.sign(g[0])))
        mono &= bool(np.all(np.sign(r.y[1]) == sign))
    return expands, clear, mono


def move(pot, K, st, goal, form, stop, method, eta, ref):
    from primpy.solver import solve
    import primpy.events as pe
    eq = equations(pot, K, form, eta)
    xn = 't' if form == 'T' else '_N'
    d = goal[xn] - st[xn]
    far = st[xn] + 3 * d if form == 'N' else st[xn] + (3 * d if d > 0 else 1.5 * d)
    if stop == 'x_end':
        ev, xe = [], goal[xn]
    else:
        ev = [dict(UntilN=lambda: pe.UntilNEvent(eq, goal['_N']), UntilT=lambda: pe.UntilTEvent(eq, goal['t']),
                   Phi0=lambda: pe.Phi0Event(eq, value=goal['phi']))[stop]()]
        xe = far
    H = abs(st['H'])
    tol = METHODS[method]
    small = min(abs(st['dphidt']) if form == 'T' else 1e-2, 1.) * tol * 1e-3
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return solve(start(eq, st, form, xe), events=ev, rtol=tol, atol=max(small, 1e-300), method=method)


TOL = {'RK45': 2e-7, 'DOP853': 2e-8, 'Radau': 2e-5, 'LSODA': 2e-6}


def compare(ctx, key, st, goal, scale, tol, names=None):
    ok = True
    for n in names or ('phi', 'dphidt', '_N', 't', 'eta', 'H'):
        if n in st:
            ok &= ctx.true(f'{key}:{n}', abs(st[n] - goal[n]) <= tol * scale[n], f'{st[n]!r}, the trajectory has {goal[n]!r}')
    return ok


def scales(ref, pts):
    P = [ref.physical(p) for p in pts]
    sc = {n: max(abs(p[n]) for p in P) for n in ('dphidt', 'H')}
    sc['phi'] = max(1., max(abs(p['phi']) for p in P))
    sc['_N'] = 1.
    sc['t'] = P[-1]['t'] - P[0]['t']
    sc['eta'] = P[-1]['eta'] - P[0]['eta']
    return sc


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def run_paths(case, ctx):
    pot, K, ref, pts = build(case['cfg'])
    goal = [ref.physical(p) for p in pts]
    sc = scales(ref, pts)
    eta = 'eta' in case['opts']
    m, n = case['method'], len(pts)
    seg = {(i, j): segment(ref, pts, i, j) for i, j in itertools.permutations(range(n), 2)}
    ctx.add('states', n)
    def explore(j, st, path, depth):
        if depth == 0:
            return
        for g in range(n):
            if g == j or (not path and g != [x for x in range(n) if x != j][case['first']]):
                continue
            for f, stop in itertools.product('TN', STOPS):
                expands, clear, mono = seg[j, g]
                if (f == 'N' and not (expands and clear)) or (stop == 'Phi0' and not mono) or (stop == 'UntilN' and not expands):
                    continue
                key = f"{case['cfg']}:{m}:{'eta' if eta else ''}:" + '>'.join(path + [f'{g}{f}.{stop}'])
                sol = move(pot, K, st, goal[g], f, stop, m, eta, ref)
                ctx.add('transitions')
                if not ctx.true(key + ':success', sol.success and sol.status == (0 if stop == 'x_end' else 1),
                                f'status {sol.status}: {sol.message}'):
                    continue
                new = last(sol, f)
                fine = compare(ctx, key, new, goal[g], sc, TOL[m])
                ctx.add('traces_validated_against_impl')
                ctx.outcome(f'{f} {stop} ' + ('forwards' if g > j else 'backwards'))
                if fine:
                    new.setdefault('eta', goal[g]['eta'])
                    explore(g, new, path + [f'{g}{f}.{stop}'], depth - 1)
    # start in the middle or at the beginning
    for j in ((0, 2) if case['depth'] == 2 else (0,)):
        explore(j, dict(goal[j]), [], case['depth'])


def run_sampling(case, ctx):
    """t_eval, dense_output, max_step and extra events only change what is recorded."""
    from primpy.solver import solve
    import primpy.events as pe
    pot, K, ref, pts = build(case['cfg'])
    f = case['form']
    ctx.add('states', len(pts))
    expands, clear, mono = segment(ref, pts, 0, len(pts) - 1)
    if f == 'N' and not (expands and clear):
        return
    goal = [ref.physical(p) for p in pts]
    sc = scales(ref, pts)
    xn = 't' if f == 'T' else '_N'
    x0, x1 = goal[0][xn], goal[-1][xn]
    truth = np.array([ref.physical(ref.run(p, q * (r[3] - p[3]))) for p, r in zip(pts, pts[1:]) for q in (0.1, 0.5, 0.9)])
    xs = np.array([g[xn] for g in truth])
    for eta, m in itertools.product((False, True), METHODS):
        tol = METHODS[m]
        base = dict(rtol=tol, atol=max(1e-300, tol * 1e-3 * min(1., abs(goal[0]['dphidt']))), method=m)
        for name, kw in [('t_eval', dict(t_eval=xs)), ('dense', dict(dense_output=True)),
                         ('both', dict(dense_output=True, t_eval=xs)), ('max_step', dict(max_step=(x1 - x0) / 40, t_eval=xs)),
                         ('first_step', dict(first_step=(x1 - x0) / 1000, t_eval=xs)), ('t_eval2', dict(t_eval=xs[::2]))]:
            eq = equations(pot, K, f, eta)
            ev = [pe.InflationEvent(eq, +1), pe.InflationEvent(eq, -1), pe.UntilNEvent(eq, goal[1]['_N'], terminal=False),
                  pe.UntilTEvent(eq, goal[2]['t'], terminal=False), pe.CollapseEvent(eq, terminal=False)]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                sol = solve(start(eq, goal[0], f, x1), events=ev, **base, **kw)
            key = f"{case['cfg']}:{f}:{m}:{name}:eta={eta}"
            ctx.add('transitions')
            want = xs[::2] if name == 't_eval2' else xs if 't_eval' in kw else None
            if want is not None:
                ctx.close(key + ':x', sol.x, want, 1e-14, 0, 'recorded points')
                for i, g in enumerate(truth[::2] if name == 't_eval2' else truth):
                    compare(ctx, f'{key}:{i}', last(sol, f, i), g, sc, max(TOL[m], 1e-6))
            if 'dense_output' in kw:
                y = sol.sol(xs)
                for n, row in eq.idx.items():
                    w = np.array([g[n] for g in truth])
                    ctx.true(f'{key}:sol({n})', np.all(np.abs(y[row] - w) <= max(TOL[m], 1e-6) * sc.get(n, 1.)), f'{y[row]!r} not {w!r}')
            got = sol._N_events['UntilN']
            if expands:
                ctx.true(key + ':event', got.size == 1 and abs(sol.phi_events['UntilN'][0] - goal[1]['phi']) < max(TOL[m], 1e-6) * sc['phi'],
                         f'UntilN at {got!r}')
            tt = sol.t_events['UntilT']
            ctx.true(key + ':event', tt.size == 1 and abs(sol.phi_events['UntilT'][0] - goal[2]['phi']) < max(TOL[m], 1e-6) * sc['phi'],
                     f'UntilT at {tt!r}')
            ctx.add('traces_validated_against_impl')
            ctx.outcome(f'sampling {name}')


def run_scaling(case, ctx):
    """V -> s V is a change of units: t -> t/sqrt(s), a -> a/sqrt(s) (curved) or any a (flat)."""
    import primpy.potentials as pp
    from primpy.solver import solve
    cls, kw, K, N, phi, u, dN = TRAJ[case['cfg']]
    f = case['form']
    pot, K, ref, pts = build(case['cfg'])
    ctx.add('states', len(pts))
    expands, clear, mono = segment(ref, pts, 0, len(pts) - 1)
    if f == 'N' and not (expands and clear):
        return
    goal = [ref.physical(p) for p in pts]
    sc = scales(ref, pts)
    kw = {k: v for k, v in kw.items() if k != 'Lambda'}
    for l, shift in itertools.product((0.05, 0.7, 1., 40.), (0., -3., 25.) if K == 0 else (0.,)):
        q = getattr(pp, cls)(Lambda=pot.Lambda * l, **kw)
        # V scales by l^4, H by l^2
        dNs = -2 * np.log(l) if K else shift
        st = dict(goal[0], dphidt=goal[0]['dphidt'] * l ** 2, H=goal[0]['H'] * l ** 2, t=goal[0]['t'] / l ** 2,
                  _N=goal[0]['_N'] + dNs, eta=goal[0]['eta'] / l ** 2 * np.exp(-dNs))
        eq = equations(q, K, f, True)
        x1 = (goal[-1]['t'] / l ** 2) if f == 'T' else goal[-1]['_N'] + dNs
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sol = solve(start(eq, st, f, x1), rtol=1e-12, atol=1e-16 if f == 'N' else 1e-16 * abs(st['dphidt']), method='DOP853')
        e = last(sol, f)
        got = dict(phi=e['phi'], dphidt=e['dphidt'] / l ** 2, H=e['H'] / l ** 2, t=e['t'] * l ** 2, _N=e['_N'] - dNs,
                   eta=e['eta'] * l ** 2 * np.exp(dNs))
        compare(ctx, f"{case['cfg']}:{f}:scaling:{l}:{shift}", got, goal[-1], sc, 1e-7)
        ctx.add('transitions')
        ctx.add('traces_validated_against_impl')
        ctx.outcome('scaling')


def run_whole(case, ctx):
    """From the start of inflation to its end, in either time variable, with any method."""
    import primpy.potentials as pp
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.initialconditions import InflationStartIC, SlowRollIC
    from primpy.events import InflationEvent, CollapseEvent
    from primpy.solver import solve
    name, kw, phi_i, Ns = WHOLE[case['cfg']]
    K = case['K']
    pot = getattr(pp, name)(**kw)
    T = ctx.tier == 'thorough'
    for N_i, IC in itertools.product(Ns, (InflationStartIC, SlowRollIC)):
        V = float(pot.V(phi_i))
        # curvature comparable to the energy density at the start: reach it by choosing the scale factor
        if K:
            N_i = N_i - Ns[1] - 0.5 * np.log(V) + (1.2 if IC is InflationStartIC else 1.)
        try:
            ic = IC(InflationEquationsT(K, pot), phi_i=phi_i, N_i=N_i, t_i=1.)
        except Exception as e:
            ctx.outcome('start rejected')
            continue
        pd = -np.sqrt(V) if IC is InflationStartIC else None
        if pd is None:
            H = np.sqrt(V / 3 - K * np.exp(-2 * N_i))
            pd = -float(pot.dV(phi_i)) / (3 * H)
        # the e-fold form starts from the same dphi/dN, that is with a slightly different dphi/dt for slow roll
        for form in 'TN':
            p = pd
            if form == 'N' and IC is SlowRollIC:
                u = pd / H
                p = u * np.sqrt((V / 3 - K * np.exp(-2 * N_i)) / (1 - u ** 2 / 6))
            ref = Reference(pot, K, N_i, phi_i, p, t=0.)
            infl = lambda y: y[1] ** 2 - float(pot.V(y[0])) * ref.tau ** 2
            y, r = ref.until(ref.run(ref.y0, 1e-3), infl, smax=3e4)
            if y is None:
                ctx.outcome('no end')
                continue
            want = ref.physical(y)
            a2V = np.array([float(pot.V(a)) for a in r.y[0]]) * np.exp(2 * r.y[2]) - 3 * K
            sing = form == 'N' and np.any(a2V < 0.02 * np.abs(a2V + 3 * K))
            for m, rtol in [('RK45', 1e-10), ('DOP853', 1e-12), ('DOP853', 1e-10)] + ([('LSODA', 1e-11), ('RK45', 1e-12)] if T else []):
                eq = (InflationEquationsT if form == 'T' else InflationEquationsN)(K, pot)
                ev = [InflationEvent(eq, +1), InflationEvent(eq, -1, terminal=True), CollapseEvent(eq)]
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    sol = solve(IC(eq, phi_i=phi_i, N_i=N_i, t_i=7e4), events=ev, rtol=rtol, atol=1e-16 if form == 'T' else 1e-12, method=m)
                key = f"{'sqrt6:' if sing else ''}{case['cfg']}:K={K}:{IC.__name__}:N_i={N_i:.6g}:{form}:{m}:{rtol}"
                ctx.add('transitions')
                ctx.add('traces_validated_against_impl')
                ctx.outcome('whole run')
                tol = 2e-5
                ctx.true(key + ':_N_end', abs(sol._N_end - want['_N']) < tol, f"{sol._N_end!r}, the trajectory has {want['_N']!r}")
                ctx.true(key + ':phi_end', abs(sol.phi_end - want['phi']) < tol, f"{sol.phi_end!r}, the trajectory has {want['phi']!r}")
                ctx.true(key + ':H_end', abs(sol.H_end / want['H'] - 1) < tol, f"{sol.H_end!r}, the trajectory has {want['H']!r}")
                if not sing:
                    d = np.diff(sol._logaH[sol.inflation_mask])
                    ctx.true(key + ':logaH', np.all(d > -1e-9), f'aH shrinks by {d.min()!r} during inflation')
    ctx.add('states', len(Ns) * 2)
