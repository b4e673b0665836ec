"""C06: start, end and duration of inflation for every set of tracked events."""
import itertools
import warnings

import numpy as np

from mc import bg, c05, pots

PID, LEVEL = 'C06', 'exploration'
TECHNIQUE = "exhaustive enumeration of tracked-event subsets and backgrounds on the real solver against a decision table"
NOTE = ("every subset of the six inflation events x collapse x an early limit event x verbosity for ten backgrounds in both "
        "formulations, and the library's own initial conditions on a lattice; expected values come from an event-free dense "
        "solution and independently written Friedmann diagnostics")
RULE = ("powerset of {inflation events: direction -1,0,+1 x terminal} x {-, collapse terminal, collapse non-terminal} x {-, "
        "early limit} x backgrounds x formulations x verbose, and subsets of at most two events x {2, 3, 8} output points; plus K x potential x phi_i x N_i x IC class; non-trivial: "
        "every reported quantity was compared")
ASSUMPTIONS = ["the start needs an InflationEvent with direction=+1 and the end one with direction=-1, as documented"]
CASE_TIMEOUT = 300

INF = [i for i, a in enumerate(c05.ALPHA) if a[1] == 'InflationEvent' and not isinstance(a[6], str)]
LAB = {a[0]: i for i, a in enumerate(c05.ALPHA)}
COL = [(), (LAB['Col'],), (LAB['Col-'],)]
LIM = [(), (LAB['UntN'],)]


def cases(tier, seed):
    out = []
    for c, f in bg.FORMS:
        for o in ([()] if tier == 'quick' else c05.opts(f)):
            for part in range(4):
                out.append(dict(kind='events', cfg=c, form=f, opts=list(o), part=part))
    for n, pl in pots.catalogue('quick').items():
        pl = [p for p in pl if p[0].get('phi0', 20) >= 20 and p[0].get('alpha', 1.) == 1.]
        for kw, ref in pl if tier == 'thorough' else pl[-1:]:
            for K in (-1, 0, 1):
                out.append(dict(kind='ic', name=n, kw=kw, K=K))
    return out


def nan_or(ctx, key, got, want, rtol=1e-7, atol=1e-9):
    got = float(np.squeeze(got))
    if np.isnan(want):
        ctx.true(key, np.isnan(got), f'got {got!r}, expected NaN')
    else:
        ctx.close(key, got, float(want), rtol, atol, key.rsplit(':', 1)[-1])


def everywhere(ctx, key, sol, form, eq, D):
    """w, H, logaH, Omega_K at every step from the Friedmann equation."""
    x, y = sol.x, sol.y
    H2 = D.H2(x, y)
    good = H2 > 1e-6 * np.max(H2)
    good &= (D.pd2(x, y) / 2 < 3 * H2 * 1e3)
    if eq.K == 1:
        good &= H2 > 1e-3 * np.exp(-2 * D.N(x, y))
    r = 1e-6
    ctx.close(key + ':w', np.asarray(sol.w)[good], D.w(x, y)[good], r, r, 'w')
    ctx.close(key + ':H', sol.H[good], np.sqrt(H2[good]), r, 0, 'H')
    ctx.close(key + ':_logaH', sol._logaH[good], (D.N(x, y) + np.log(H2) / 2)[good], r, r, '_logaH')
    ctx.close(key + ':Omega_K', sol.Omega_K[good], (-eq.K * np.exp(-2 * D.N(x, y)) / H2)[good], 10 * r, 1e-12, 'Omega_K')
    rho = D.pd2(x, y) / 2 + D.V(x, y)
    # 1 - Omega_K = rho / 3H^2
    ctx.close(key + ':Friedmann', (1 - sol.Omega_K)[good], (rho / (3 * sol.H ** 2))[good], 1e-4, 1e-6, '1-Omega_K')
    ctx.true(key + ':K', sol.K == eq.K and sol.potential is eq.potential, 'K/potential')


def check(ctx, key, sol, form, eq, D, beg, end, verbose, wlist, start_tracked, end_tracked, collapsed):
    """beg/end: None or (x, y) of the reference start/end."""
    nan = np.nan

    def at(p):
        if p is None:
            return dict(N=nan, H=nan, phi=nan, V=nan, l=nan)
        x, y = p
        H = np.sqrt(D.H2(x, y))
        return dict(N=float(D.N(x, y)), H=float(H), phi=float(D.get('phi', x, y)), V=float(D.V(x, y)),
                    l=float(D.N(x, y) + np.log(H)))
    B, E = at(beg), at(end)
    nan_or(ctx, key + ':_N_beg', sol._N_beg, B['N'])
    nan_or(ctx, key + ':H_beg', sol.H_beg, B['H'], 1e-6)
    nan_or(ctx, key + ':_logaH_beg', sol._logaH_beg, B['l'], 1e-6, 1e-6)
    nan_or(ctx, key + ':_N_end', sol._N_end, E['N'])
    nan_or(ctx, key + ':phi_end', sol.phi_end, E['phi'], 1e-6, 1e-7)
    nan_or(ctx, key + ':H_end', sol.H_end, E['H'], 1e-6)
    nan_or(ctx, key + ':V_end', sol.V_end, E['V'], 1e-5)
    nan_or(ctx, key + ':_logaH_end', sol._logaH_end, E['l'], 1e-6, 1e-6)
    nan_or(ctx, key + ':N_tot', sol.N_tot, E['N'] - B['N'], 1e-7, 1e-8)
    if beg is not None and end is not None:
        N = np.asarray(sol._N)
        want = (N > B['N'] + 1e-9) & (N < E['N'] - 1e-9)
        unsure = (np.abs(N - B['N']) <= 1e-8) | (np.abs(N - E['N']) <= 1e-8)
        ctx.true(key + ':inflation_mask', bool(np.all((np.asarray(sol.inflation_mask) == want) | unsure)), 'inflation_mask')
    ctx.outcome('start %s, end %s' % ('NaN' if beg is None else 'found', 'NaN' if end is None else 'found'))
    from primpy.exceptionhandling import InflationStartWarning, InflationEndWarning, CollapseWarning, PrimpyWarning
    got = [w.category for w in wlist if issubclass(w.category, PrimpyWarning)]
    want = []
    if verbose:
        if collapsed:
            want.append(CollapseWarning)
        elif beg is None:
            want.append(InflationStartWarning)
        if end is None:
            want.append(InflationEndWarning)
    ctx.true(key + ':warnings', sorted(c.__name__ for c in got) == sorted(c.__name__ for c in want),
             f'warnings {[c.__name__ for c in got]}, expected {[c.__name__ for c in want]}')
    for w in wlist:
        m = str(w.message)
        if w.category is InflationStartWarning:
            ctx.true(key + ':start message', ('Not tracking' in m) == (not start_tracked), f'message: {m[:120]}')
        if w.category is InflationEndWarning:
            ctx.true(key + ':end message', ('Not tracking' in m) == (not end_tracked), f'message: {m[:120]}')


def run(case, ctx):
    if case['kind'] == 'ic':
        return run_ic(case, ctx)
    import primpy.events as pe
    from primpy.solver import solve
    cfg, form, o = case['cfg'], case['form'], case['opts']
    ref, cr, par = c05.reference(cfg, form, o)
    n = 0
    for r in range(len(INF) + 1):
        for sub in itertools.combinations(INF, r):
            for col, lim, samples in [(c, l, 0) for c in COL for l in LIM] + [((), (), m) for m in (2, 3, 8) if r <= 2]:
                n += 1
                if n % 4 != case['part']:
                    continue
                l = (sub + col + lim) if n % 3 else (lim + col + sub[::-1])
                verbose = bool((n // 4 + n // 6) % 2)
                key = f'{cfg}:{form}:{"+".join(o) or "-"}:[{",".join(c05.ALPHA[e][0] for e in l)}]:{"verbose" if verbose else "quiet"}' + (f':t_eval={samples}' if samples else '')
                eq, st, a, b = bg.build(cfg, form, o)
                eq = type(eq)(eq.K, eq.potential, verbose=verbose, **{'track_eta': 'eta' in o},
                              **({'track_time': 't' in o} if form == 'N' else {}))
                D = bg.Diag(eq, form, eq.K, eq.potential)
                evs = [getattr(pe, c05.ALPHA[e][1])(eq, *[par[x] if isinstance(x, str) else x for x in c05.ALPHA[e][2]]) for e in l]
                hits, stop = c05.expected(ref, cr, l)
                # few samples: the crossings lie between recorded points
                kw = dict(t_eval=np.linspace(ref.t[0], ref.t[-1] if stop is None else stop[1], samples + 1)[:-1]) if samples else {}
                with warnings.catch_warnings(record=True) as wl:
                    warnings.simplefilter('always')
                    sol = solve(bg.raw_ic(eq, st, a, b), events=evs, **kw, **c05.TOL)

                def first(d):
                    h = [hits[e][0] for e in l if e in sub and c05.ALPHA[e][4] == d and hits[e]]
                    return min(h, key=lambda x: x[:2]) if h else None
                # a non-terminal event simultaneous with another terminal one may not be recorded by scipy
                up, dn = first(1), first(-1)
                ambiguous = stop is not None and any(
                    x is not None and abs(x[1] - stop[1]) < 1e-9 and
                    any(c05.ALPHA[e][3] and c05.ALPHA[e][4] != d and hits[e] and abs(hits[e][0][1] - stop[1]) < 1e-9 for e in l)
                    for x, d in ((up, 1), (dn, -1)))
                if ambiguous:
                    ctx.outcome('simultaneous terminal event, skipped')
                    continue
                collapsed = bool(col) and bool(hits[col[0]])
                y0 = ref.y[:, 0]
                if collapsed:
                    beg = None
                elif D.inflating(ref.t[0], y0) >= 0:
                    beg = (ref.t[0], y0)
                else:
                    beg = up and (up[1], up[4])
                end = dn and (dn[1], dn[4])
                check(ctx, key, sol, form, eq, D, beg, end, verbose, wl,
                      any(c05.ALPHA[e][4] == 1 for e in sub), any(c05.ALPHA[e][4] == -1 for e in sub), collapsed)
                everywhere(ctx, key, sol, form, eq, D)
    # the reported attributes do not depend on the diagnostics having been queried before
    ctx.sample = dict(config=bg.CONFIGS[cfg], crossings={str(k): len(v) for k, v in cr.items()})


def run_ic(case, ctx):
    """The library's own initial conditions: inflation-start IC start at N_i exactly; slow roll is inflating from the start."""
    import primpy.potentials as pp
    import primpy.events as pe
    from primpy.initialconditions import SlowRollIC, InflationStartIC
    from primpy.exceptionhandling import InflationStartError
    from primpy.time.inflation import InflationEquationsT as T
    from primpy.efolds.inflation import InflationEquationsN as NE
    from primpy.solver import solve
    K = case['K']
    pot = getattr(pp, case['name'])(**case['kw'])
    x60 = {'MonomialPotential': 6., 'LinearPotential': 4., 'QuadraticPotential': 5., 'CubicPotential': 6., 'QuarticPotential': 7.,
           'RadionGaugePotential': 4., 'RadionGauge2Potential': 4., 'TmodelPotential': 4.}.get(
        case['name'], 0.45 * case['kw'].get('phi0', 10.))
    pe60 = float(pot.phi_end)
    for phi in [x60, 0.7 * x60 + 0.1, 1.3 * x60 + 0.03]:
        if phi < 1.5 * pe60:
            phi = 1.5 * pe60 + phi / 10
        V = float(pot.V(phi))
        Nc = -np.log(V / 3) / 2
        for dN in [0.12, 0.7, 2.3, 5.] if ctx.tier == 'thorough' else [0.25, 3.1]:
            for form, cls in itertools.product('TN', (InflationStartIC, SlowRollIC)):
                key = f"{case['name']}({case['kw']}):K={K}:{form}:{cls.__name__}:phi_i={phi:.6g}:N_i={Nc + dN:.6g}"
                eq = (T if form == 'T' else NE)(K, pot)
                D = bg.Diag(eq, form, K, pot)
                x1 = 1e300 if form == 'T' else Nc + dN + 5000
                try:
                    ic = cls(eq, phi_i=phi, N_i=Nc + dN, t_i=1., x_end=x1)
                except InflationStartError:
                    continue
                evs = [pe.InflationEvent(eq, -1, terminal=True), pe.CollapseEvent(eq)]
                if cls is InflationStartIC:
                    evs.insert(0, pe.InflationEvent(eq, +1, terminal=False))
                with warnings.catch_warnings(record=True) as wl:
                    warnings.simplefilter('always')
                    sol = solve(ic, events=evs, rtol=1e-8, atol=1e-10)
                if D.inflating(sol.x[0], sol.y[:, 0]) < -1e-6 * V:
                    ctx.outcome('not inflating at the start')
                    continue
                ctx.close(key + ':_N_beg', sol._N_beg, Nc + dN, 1e-9, 1e-6, '_N_beg')
                # the end: last point of the run is the terminal event, where V = phidot^2
                xe, ye = sol.x[-1], sol.y[:, -1]
                g = D.inflating(xe, ye) / D.V(xe, ye)
                ctx.true(key + ':end', sol.status == 1 and abs(g) < 1e-5, f'run ends with status {sol.status}, (V-phidot^2)/V={g}')
                inside = D.inflating(sol.x[1:-1], sol.y[:, 1:-1])
                nbad = int(np.sum(inside < -1e-9 * D.V(sol.x[1:-1], sol.y[:, 1:-1])))
                ctx.true(key + ':inside', nbad == 0, f'{nbad} non-inflating points before the reported end')
                N = D.N(sol.x, sol.y)
                ctx.close(key + ':_N_end', sol._N_end, float(N[-1]), 1e-9, 1e-9, '_N_end')
                ctx.close(key + ':N_tot', sol.N_tot, float(N[-1]) - (Nc + dN), 1e-7, 1e-6, 'N_tot')
                ctx.close(key + ':phi_end', sol.phi_end, float(D.get('phi', xe, ye)), 1e-7, 1e-9, 'phi_end')
                ctx.close(key + ':H_end', sol.H_end, float(np.sqrt(D.H2(xe, ye))), 1e-6, 0, 'H_end')
                ctx.close(key + ':V_end', sol.V_end, float(D.V(xe, ye)), 1e-6, 0, 'V_end')
                everywhere(ctx, key, sol, form, eq, D)
