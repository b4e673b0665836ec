"""C08: shooting initial conditions reach their target or fail loudly, also when trial integrations give up."""
import itertools

import numpy as np
from scipy import integrate
from scipy.optimize import brentq

from mc import bg

PID, LEVEL = 'C08', 'fault_enumeration'
TECHNIQUE = "exhaustive placement of integrator failures among all trial integrations of the real code, plus enumeration of targets"
NOTE = ("for each shooting problem every single trial integration is made to give up at each of several depths and with each "
        "kind of message, alone and persistently; separately a lattice of targets, brackets, curvatures and formulations is "
        "solved; in every case the outcome must be an error or a state that reaches the target under independent integration")
RULE = ("(problem x trial index x truncation point x message x once/persistent) and (class x K x potential x formulation x "
        "N_i/Omega_Ki x target x bracket); non-trivial: a state was returned and re-integrated, or an error was required/allowed")
ASSUMPTIONS = ["target tolerance: the root finder's tolerance in phi_i times the local slope dN/dphi_i, at least 1e-4",
               "an integrator failure is a solve_ivp result with status -1 truncated after any accepted step"]
CASE_TIMEOUT = 600
FAST = dict(rtol=1e-7, atol=1e-9)

POT = {'quad': ('QuadraticPotential', {}, 4., 40.), 'staro': ('StarobinskyPotential', {}, 3.5, 8.),
       'nat': ('NaturalPotential', dict(phi0=20.), 2.5, 19.), 'dw2': ('DoubleWell2Potential', dict(phi0=20.), 2.5, 19.9),
       'tm': ('TmodelPotential', dict(p=1, alpha=1.), 3., 12.)}


def cases(tier, seed):
    out = []
    T = tier == 'thorough'
    for p in POT if T else ('quad', 'staro', 'nat'):
        for K in (-1, 0, 1):
            for form in 'TN':
                for spec in ['N_i'] + ([] if K == 0 else ['Omega_Ki']):
                    for target in [5., 20., 60., 100.] if T else [20., 60.]:
                        out.append(dict(kind='Nt', pot=p, K=K, form=form, spec=spec, target=target))
                        if K != 0 and target >= 20 and (T or p != 'nat'):
                            out.append(dict(kind='Ns', pot=p, K=K, form=form, spec=spec, target=target + 20))
    # other universes today, other variables tracked, and the whole way from the shooting to the solution
    for p in POT if T else ('quad', 'staro'):
        for K in (-1, 1):
            for form in 'TN':
                for spec in ('N_i', 'Omega_Ki') if T else ('N_i' if p == 'quad' else 'Omega_Ki',):
                    for h, Ok in [(0.446, 0.0013), (0.97, 0.2), (0.65, 1e-6)][:3 if T else 2]:
                        out.append(dict(kind='Ns', pot=p, K=K, form=form, spec=spec, target=55., h=h, Ok=Ok, whole=True))
        for K in (-1, 0, 1):
            for form in 'TN' if T or p == 'quad' else '':
                out.append(dict(kind='Nt', pot=p, K=K, form=form, spec='N_i', target=61.5, whole=True))
    # steep threshold: the closed universe loiters, any root is at the edge of what phi_i can resolve
    for form in 'TN':
        for target in [5., 60., 150., 175., 200.]:
            out.append(dict(kind='Nt', pot='quad', K=1, form=form, spec='steep', target=target))
    for p in ('quad', 'staro') if T else ('quad',):
        for K in (-1, 0, 1):
            for form in 'TN':
                for kind in ('Nt', 'Ns') if K else ('Nt',):
                    for mode in ('once', 'from'):
                        for msg in ('step', 'other'):
                            out.append(dict(kind='fault', shoot=kind, pot=p, K=K, form=form, mode=mode, msg=msg))
    return out


def setup(case, bracket=None):
    import primpy.potentials as pp
    from primpy.initialconditions import ISIC_Nt, ISIC_NsOk
    from primpy.time.inflation import InflationEquationsT as T
    from primpy.efolds.inflation import InflationEquationsN as NE
    name, kw, lo, hi = POT[case['pot']]
    pot = getattr(pp, name)(**kw)
    K = case['K']
    whole = case.get('whole', False)
    eq = T(K, pot, track_eta=whole) if case['form'] == 'T' else NE(K, pot, track_time=whole, track_eta=whole)
    spec = case.get('spec', 'N_i')
    if spec == 'N_i':
        a = dict(N_i=1.5)
    elif spec == 'steep':
        a, lo, hi = dict(N_i=-3.), 3., 40.
    else:
        a = dict(Omega_Ki=-K * 0.7)
    b = bracket or [lo, hi]
    kind = case['kind'] if case['kind'] != 'fault' else case['shoot']
    # long enough for e-folds and time alike
    if kind == 'Nt':
        cls, kw = ISIC_Nt, dict(N_tot=case['target'])
    else:
        cls, kw = ISIC_NsOk, dict(N_star=case['target'], Omega_K0=-K * case.get('Ok', 0.01), h=case.get('h', 0.7))
    kw.update(phi_i_bracket=b, t_i=1., eta_i=3., **a)
    mk = lambda **more: cls(eq, **{**kw, **more})
    return eq, pot, a, b, kind, mk


def ref_run(form, K, pot, phi, a, limit, tol=None):
    """(N_tot, trajectory) from the inflation-start state; (nan, .) collapse, (inf, .) still inflating after `limit` e-folds."""
    tol = tol or dict(rtol=1e-10, atol=1e-12)
    V = float(pot.V(phi))
    if 'N_i' in a:
        N_i = a['N_i']
    else:
        N_i = np.log(2 * K / V * (1 - 1 / a['Omega_Ki'])) / 2
    H2 = V / 2 - K * np.exp(-2 * N_i)
    if not H2 > 0:
        return np.nan, None
    # own cosmic-time integration of (phi, phidot, N), written out here

    def f(t, y):
        H2 = (y[1] ** 2 / 2 + pot.V(y[0])) / 3 - K * np.exp(-2 * y[2])
        H = np.sqrt(max(H2, 0.))
        return [y[1], -3 * H * y[1] - pot.dV(y[0]), H]
    end = lambda t, y: pot.V(y[0]) - y[1] ** 2 + (1e-9 if t == 0 else 0)
    end.terminal, end.direction = True, -1
    lim = lambda t, y: y[2] - N_i - limit
    lim.terminal = True
    col = lambda t, y: (y[1] ** 2 / 2 + pot.V(y[0])) / 3 - K * np.exp(-2 * y[2]) - 1e-14 * V
    col.terminal, col.direction = True, -1
    y0 = [phi, -np.sqrt(V), N_i]
    r = integrate.solve_ivp(f, (0, 1e300), y0, events=[end, lim, col], **tol)
    if r.t_events[0].size:
        return r.y[2, -1] - N_i, r
    if r.t_events[1].size:
        return np.inf, r
    return np.nan, r


def nstar(r, pot, K, Omega_K0, h):
    """e-folds between horizon crossing of k=0.05/Mpc and the end, for a universe with curvature Omega_K0 today."""
    a0_Mpc = 299792.458 / (100 * h) / np.sqrt(abs(Omega_K0))
    N = r.y[2]
    H2 = (r.y[1] ** 2 / 2 + pot.V(r.y[0])) / 3 - K * np.exp(-2 * N)
    l = N + np.log(np.maximum(H2, 1e-300)) / 2 - np.log(0.05 * a0_Mpc)
    i = np.where((l[:-1] <= 0) & (l[1:] > 0))[0]
    if not i.size:
        return np.nan
    i = i[0]
    from scipy.interpolate import CubicSpline
    s = slice(max(0, i - 5), i + 7)
    sp = CubicSpline(N[s], l[s])
    return N[-1] - brentq(sp, N[i], N[i + 1])


def achieved(case, kind, pot, K, phi, a):
    val, r = ref_run(case['form'], K, pot, phi, a, case['target'] * 3 + 100)
    if kind == 'Nt' or not np.isfinite(val):
        return val
    return nstar(r, pot, K, -K * case.get('Ok', 0.01), case.get('h', 0.7))


def verify(ctx, key, case, kind, pot, K, a, b, eq, ic, y0, loose=1.):
    phi = float(y0[eq.idx['phi']])
    ctx.true(key + ':bracket', min(b) <= phi <= max(b), f'phi_i={phi} outside the bracket {b}')
    ctx.true(key + ':ic.phi_i', ic.phi_i == phi, f'ic.phi_i={ic.phi_i}, y0 has {phi}')
    V = float(pot.V(phi))
    N_i = a['N_i'] if 'N_i' in a else np.log(2 * K / V * (1 - 1 / a['Omega_Ki'])) / 2
    H = np.sqrt(V / 2 - K * np.exp(-2 * N_i))
    if case['form'] == 'T':
        ctx.close(key + ':dphidt', y0[eq.idx['dphidt']], -np.sqrt(V), 1e-9, 0, 'dphidt')
        ctx.close(key + ':_N', y0[eq.idx['_N']], N_i, 1e-9, 1e-9, '_N')
        ctx.true(key + ':x_ini', ic.x_ini == 1., f'x_ini={ic.x_ini}')
    else:
        steep = V / H ** 2
        ctx.close(key + ':dphidN', y0[eq.idx['dphidN']], -np.sqrt(V) / H, 1e-9 * steep, 0, 'dphidN')
        ctx.close(key + ':x_ini', ic.x_ini, N_i, 1e-9, 1e-9, 'x_ini')
    for n, v in (('t', 1.), ('eta', 3.)):
        if n in eq.idx:
            ctx.true(f'{key}:{n}', y0[eq.idx[n]] == v, f'{n} starts at {y0[eq.idx[n]]}, not {v}')
    got = achieved(case, kind, pot, K, phi, a)
    # root-finding tolerance in phi times the local slope
    d = 1e-5 * max(1, phi)
    if case.get('spec') == 'steep':
        d = 1e-8 if case['form'] == 'N' else 1e-10
    g1, g2 = achieved(case, kind, pot, K, phi - d, a), achieved(case, kind, pot, K, phi + d, a)
    slope = abs(g2 - g1) / (2 * d) if np.isfinite(g1) and np.isfinite(g2) else 1e3
    xtol = 3e-6 * (1 + phi) if case['form'] == 'N' else 3e-12 + 3e-12 * phi
    if case.get('spec') == 'steep':
        tol = 2e-3 * case['target']
    else:
        tol = 1e-4 * loose + slope * xtol
    ctx.true(key + ':target', abs(got - case['target']) <= tol,
             f'phi_i={phi!r} gives {got!r} instead of {case["target"]} (tolerance {tol:.3g})')
    return got


def run(case, ctx):
    if case['kind'] == 'fault':
        return run_fault(case, ctx)
    name, kw, lo0, hi0 = POT[case['pot']]
    tag = f"{case['kind']}:{case['pot']}:K={case['K']}:{case['form']}:{case['spec']}:target={case['target']}"
    if 'h' in case:
        tag += f":h={case['h']}:Ok={case['Ok']}"
    eq, pot, a, b, kind, mk = setup(case)
    K = case['K']
    good = None
    brs = [b]
    for br in [b, 'low', 'high', 'edge', 'swapped']:
        if br == 'low' or br == 'high':
            if case['spec'] == 'steep' or good is None:
                continue
            br = [lo0, lo0 + 0.7 * (good - lo0)] if br == 'low' else [good + 0.3 * (hi0 - good), hi0]
        elif br == 'edge':
            if case['spec'] == 'steep' or good is None or ctx.tier == 'quick' and case['pot'] != 'quad':
                continue
            br = [good * 0.97, good * 1.03]
        elif br == 'swapped':
            if case['spec'] == 'steep' or good is None or ctx.tier == 'quick' and case['pot'] != 'quad':
                continue
            br = [hi0, lo0]
        key = f'{tag}:[{br[0]:.4g},{br[1]:.4g}]'
        eq, pot, a, b, kind, mk = setup(case, br)
        vals = [achieved(case, kind, pot, K, x, a) for x in br]
        rank = lambda v: -1 if np.isnan(v) else v
        reach = min(map(rank, vals)) < case['target'] < max(map(rank, vals))
        y0 = np.zeros(len(eq.idx))
        try:
            ic = mk()
            ic(y0=y0, rtol=1e-10, atol=1e-12)
        except Exception as e:
            ctx.outcome('error: ' + type(e).__name__)
            ctx.true(key + ':reachable', not reach or case['spec'] == 'steep' or kind == 'Ns' and np.isnan(vals[0]),
                     f'reachable target (bracket gives {vals}) rejected: {e!r}')
            continue
        ctx.outcome('returned')
        if not ctx.true(key + ':unreachable', reach or case['spec'] == 'steep',
                        f'bracket gives {vals}, target {case["target"]} unreachable, but phi_i={ic.phi_i} returned'):
            continue
        verify(ctx, key, case, kind, pot, K, a, br, eq, ic, y0)
        if case.get('whole'):
            whole(ctx, key, case, eq, mk)
            forms(ctx, key, case, eq, br, y0, mk)
            break
        if good is None:
            good = float(ic.phi_i)
            y1 = np.zeros_like(y0)
            ic(y0=y1, rtol=1e-10, atol=1e-12)
            ctx.true(key + ':again', np.array_equal(y0, y1), f'second use gives {y1.tolist()}, not {y0.tolist()}')
    ctx.sample = dict(phi_i=good)


def whole(ctx, key, case, eq, mk):
    """solve() with the shooting conditions ends up with the target, whatever is passed on to the integrator."""
    import warnings
    from primpy.events import InflationEvent, CollapseEvent
    from primpy.solver import solve
    for m, kw in [('RK45', {}), ('RK45', dict(dense_output=True)), ('DOP853', dict(rtol=1e-11)), ('RK45', dict(rtol=1e-8, atol=1e-10))][::1 if ctx.tier == 'thorough' else 2]:
        ev = [InflationEvent(eq, +1), InflationEvent(eq, -1, terminal=True), CollapseEvent(eq)]
        k = f'{key}:solve:{m}:{sorted(kw)}'
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sol = solve(mk(), events=ev, method=m, **kw)
            if case['kind'] == 'Nt':
                got = sol.N_tot
            else:
                sol.calibrate_scale_factor(Omega_K0=-case['K'] * case.get('Ok', 0.01), h=case.get('h', 0.7))
                got = sol.N_star
        ctx.true(k, abs(got - case['target']) <= 2e-3, f"{got!r} instead of {case['target']}")
        ctx.outcome('whole')


def forms(ctx, key, case, eq, br, y0, mk):
    """Telling about the search, the container of the bracket, zero initial times and an x_end do not change what is found."""
    import contextlib
    import io
    import warnings
    same = dict(rtol=0, atol=0)
    shift = dict(rtol=1e-5, atol=1e-9)    # other times take other integration steps, which the root finder's tolerance allows
    brief = ctx.tier == 'quick' and (case['pot'] != 'quad' or case.get('h', 0.446) != 0.446)
    for what, more, tol in [('verbose', dict(verbose=True), same), ('tuple', dict(phi_i_bracket=tuple(br)), same),
                            ('array', dict(phi_i_bracket=np.array(br)), same), ('zero', dict(t_i=0., eta_i=0), shift),
                            ('x_end', dict(x_end=1e7), same)]:
        if brief and what not in ('verbose', 'zero'):
            continue
        y = np.zeros_like(y0)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter('ignore')
            try:
                ic = mk(**more)
                ic(y0=y, rtol=1e-10, atol=1e-12)
            except Exception as e:
                ctx.bad(f'{key}:{what}', f'{more} rejected: {e!r}')
                continue
        want = np.array(y0)
        for n, i in eq.idx.items():
            if n in ('t', 'eta') and what == 'zero':
                want[i] = 0
        ctx.true(f'{key}:{what}', np.allclose(y, want, **tol), f'{more} starts from {y.tolist()}, not {want.tolist()}')
        x_ini = more.get('t_i', 1.) if case['form'] == 'T' else ic.N_i
        ctx.true(f'{key}:{what}:x', ic.x_ini == x_ini and ic.x_end == more.get('x_end', 1e300),
                 f'from x={ic.x_ini} to {ic.x_end}')


class Inject:
    """Truncate the result of selected solve_ivp calls, as an integrator that gave up would."""

    def __init__(self, which, depth, msg):
        self.which, self.depth, self.msg = which, depth, msg
        self.n = 0
        self.lens = []

    def __enter__(self):
        import scipy.integrate
        import primpy.solver
        self.real = scipy.integrate.solve_ivp
        self.mods = [m for m in (scipy.integrate, primpy.solver) if getattr(m, 'solve_ivp', None) is self.real]
        for m in self.mods:
            m.solve_ivp = self.wrap
        return self

    def __exit__(self, *exc):
        for m in self.mods:
            m.solve_ivp = self.real

    def wrap(self, *a, **k):
        i = self.n
        self.n += 1
        r = self.real(*a, **k)
        self.lens.append(len(r.t))
        if not self.which(i):
            return r
        n = max(1, min(len(r.t) - 1, int(round(self.depth * len(r.t)))))
        xe = r.t[n - 1]
        r.t, r.y = r.t[:n], r.y[:, :n]
        if r.t_events is not None:
            keep = [np.asarray(t) <= xe if len(t) else np.array([], bool) for t in r.t_events]
            r.t_events = [np.asarray(t)[m] for t, m in zip(r.t_events, keep)]
            r.y_events = [np.asarray(y)[m] if len(m) else np.array([]) for y, m in zip(r.y_events, keep)]
            r.y_events = [y if y.size else np.array([]) for y in r.y_events]
        r.status, r.success = -1, False
        r.message = {'step': 'Required step size is less than spacing between numbers.',
                     'other': 'The integrator gave up.'}[self.msg]
        return r


def run_fault(case, ctx):
    case = dict(case, target=15. if case['shoot'] == 'Nt' else 55., spec='N_i')
    if case['shoot'] == 'Nt' and case['pot'] == 'staro':
        case['target'] = 30.
    name, kw, lo, hi = POT[case['pot']]
    br = [lo, hi] if case['shoot'] == 'Ns' else [lo, 0.6 * hi]
    tag = f"fault:{case['shoot']}:{case['pot']}:K={case['K']}:{case['form']}"
    K = case['K']

    def attempt(which, depth, msg):
        eq, pot, a, b, kind, mk = setup(case, br)
        y0 = np.zeros(len(eq.idx))
        with Inject(which, depth, msg) as inj:
            try:
                ic = mk()
                ic(y0=y0, **FAST)
            except Exception as e:
                return None, e, inj, None
        return ic, None, inj, (eq, pot, a, b, kind, y0)
    ic, err, inj, env = attempt(lambda i: False, 1, 'step')
    if not ctx.true(tag + ':nofault', err is None, f'no fault injected, but {err!r}'):
        return
    eq, pot, a, b, kind, y0 = env
    verify(ctx, tag + ':nofault', case, kind, pot, K, a, br, eq, ic, y0, loose=30.)
    n = inj.n
    ctx.add('trial_integrations', n)
    depths = [0., 0.35, 0.7, 1.] if ctx.tier == 'quick' else [0., 0.02, 0.1, 0.2, 0.35, 0.5, 0.6, 0.7, 0.8, 0.9, 0.97, 1.]
    for i, depth in itertools.product(range(n), depths):
        key = f"{tag}:{case['mode']}:{case['msg']}:trial {i}:depth {depth}"
        which = (lambda j, i=i: j == i) if case['mode'] == 'once' else (lambda j, i=i: j >= i)
        ic, err, inj, env = attempt(which, depth, case['msg'])
        ctx.ev()
        if err is not None:
            ctx.outcome('error: ' + type(err).__name__)
            continue
        eq, pot, a, b, kind, y0 = env
        ctx.outcome('returned')
        verify(ctx, key, case, kind, pot, K, a, br, eq, ic, y0, loose=30.)
    ctx.sample = dict(trials=n, depths=depths)
