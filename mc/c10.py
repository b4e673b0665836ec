"""C10: a solution's answers depend on its calibration, not on its history (explicit-state exploration of op sequences)."""
import copy
import hashlib
import warnings

import numpy as np

PID, LEVEL = 'C10', 'model_checking'
TECHNIQUE = "explicit-state breadth-first exploration of all operation sequences of the real solution object, against fresh-object answers"
NOTE = ("states are canonical snapshots of everything observable on the solution (attributes, cached spectra evaluated on a "
        "wavenumber lattice); every operation of the alphabet is applied in every reachable state up to the depth by replaying "
        "the shortest history on a new solution; the model of the expected answers is 'a fresh solution right after the last "
        "successful calibration and derivation', itself executed on the implementation")
RULE = "background x every state reachable within the depth x every operation; each transition is compared attribute by attribute"
ASSUMPTIONS = ["after a calibration that raised, the solution is unspecified until the next successful calibration",
               "derive_approx_power is an explicit request to replace the derived spectrum and its parameters; it is part of the expected state",
               "two states with identical observable snapshots have identical futures (hidden closure state would be missed by the "
               "merging, not by the sequences that are replayed)"]
CASE_TIMEOUT = 800

KS = np.concatenate([np.logspace(-6, 3, 10), [1e-9, 1e9]])
CFG = {'flatT': ('StarobinskyPotential', dict(Lambda=3.3e-3), 0, 'T', 14., 6.5),
       'flatN': ('QuadraticPotential', dict(Lambda=0.0025), 0, 'N', 12., 17.),
       'closedT': ('StarobinskyPotential', dict(Lambda=3.3e-3), 1, 'T', 14., 6.5),
       'openN': ('NaturalPotential', dict(Lambda=0.0055, phi0=50.), -1, 'N', 12., 15.)}

QUERIES = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('LLMS', 3), ('STE', 3), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)]


def alphabet(K):
    ops = {}
    cal = lambda *a, **k: ('cal', a, k)
    if K == 0:
        ops.update({
            'N50': cal(N_star=50.), 'N60rho': cal(N_star=60., rho_reh_GeV=1e9), 'N56w': cal(N_star=50., w_reh=0.),
            'reh': cal('reheating'), 'rehw': cal('reheating', w_reh=0., DeltaN_reh=3.), 'rehDm': cal('reheating', DeltaN_minus1=1.),
            'N55LLMS': cal(N_star=55., method='LLMS'), 'rehARBDS2': cal('reheating', method='ARBDS', order=2),
            'N52CGS1': cal(N_star=52., method='CGS', order=1),
            'ns': ('ns', (0.962,), dict(N_star_min=20, N_star_max=60)),
            'copy': ('copy', (), {}),
            'failN': cal(N_star=1e4), 'failw': cal(N_star=60., w_reh=-0.2), 'failreh': cal('reheating', w_reh=0., rho_reh_GeV=None),
            'failDm': cal('reheating', DeltaN_minus1=300.),
            'failns': ('ns', (0.999,), dict(N_star_min=20, N_star_max=45))})
    else:
        ops.update({
            'O1': cal(Omega_K0=-K * 0.01, h=0.7), 'O2rho': cal(Omega_K0=-K * 1e-6, h=0.6, rho_reh_GeV=1e9),
            'reh': cal('reheating', h=0.7), 'rehw': cal('reheating', h=0.7, w_reh=0., DeltaN_reh=3.),
            'rehrho': cal('reheating', h=0.7, w_reh=0.2, rho_reh_GeV=1e6),
            'O3LLMS': cal(Omega_K0=-K * 1e-3, h=0.7, method='LLMS'), 'rehSTE': cal('reheating', h=0.7, method='STE'),
            'failsign': cal(Omega_K0=K * 0.01, h=0.7), 'failN': cal(N_star=50., h=0.7, Omega_K0=-K * 0.01),
            'failbig': cal(Omega_K0=-K * 1e-300, h=0.7), 'failns': ('ns', (0.96,), {})})
    for m, o in QUERIES:
        ops[f'q{m}{o}'] = ('query', (m, o), {})
    ops['qLLMSext'] = ('query', ('LLMS', 3), dict(ext='zeros'))
    for m, o in [('CGS', 2), ('LLMS', 3), ('STE', 3), ('ARBDS', 1)]:
        ops[f'd{m}{o}'] = ('derive', (), dict(method=m, order=o))
    ops['dLLMSk5'] = ('derive', (), dict(method='LLMS', k=5))
    return ops


def fresh(cfg):
    import primpy.potentials as pp
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    from primpy.initialconditions import InflationStartIC
    from primpy.events import InflationEvent, AfterInflationEndEvent
    from primpy.solver import solve
    name, kw, K, form, N_i, phi_i = CFG[cfg]
    past = cfg == 'flatN' or cfg == 'closedT'     # integrated until after the end of inflation
    pot = getattr(pp, name)(**kw)
    eq = (InflationEquationsT if form == 'T' else InflationEquationsN)(K, pot)

    import scipy.integrate
    real, memo = scipy.integrate.solve_ivp, []

    def remembered(*a, **k):
        """The integrator's result depends only on its arguments, which are the same every time: integrate once."""
        if not memo:
            memo.append(real(*a, **k))
        return copy.deepcopy(memo[0])

    def make():
        ic = InflationStartIC(eq, phi_i=phi_i, N_i=N_i, t_i=7e4)
        try:
            scipy.integrate.solve_ivp = remembered
            events = [InflationEvent(eq, +1, terminal=False), InflationEvent(eq, -1, terminal=not past)]
            return solve(ic, events=events + [AfterInflationEndEvent(eq)] * past,
                         rtol=1e-6, atol=1e-10, method='DOP853' if form == 'T' else 'RK45')
        finally:
            scipy.integrate.solve_ivp = real
    return make, eq, pot


def apply(sol, op, env):
    """None or the exception."""
    kind, a, k = op
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            if kind == 'cal':
                sol.calibrate_scale_factor(*a, **k)
            elif kind == 'ns':
                sol.set_ns(*a, **k)
            elif kind == 'copy':
                b = env['donor']
                sol.calibrate_scale_factor(background=b, N_star=b.N_star)
            elif kind == 'query':
                env['answer'] = None
                env['answer'] = [np.asarray(f(KS, *a, **k), float) for f in (sol.P_s_approx, sol.P_t_approx)]
            else:
                sol.derive_approx_power(*a, **k)
        except Exception as e:
            return e
    return None


SKIP = {'sol', 'message', 'nfev', 'njev', 'nlu', 'status', 'success', 'potential', 'event_keys', 'independent_variable',
        'P_s_approx', 'P_t_approx', 'calibrate_scale_factor', 'derive_approx_power', 'set_ns'}


def snapshot(sol):
    """{name: array} of everything observable; functions of k are evaluated."""
    out = {}
    for n in list(sol.keys()):
        if n in SKIP or n.endswith('_events'):
            continue
        v = sol[n]
        if callable(v):
            try:
                v = v(np.log(KS)) if 'logk' in n else v(KS)
            except Exception as e:
                v = repr(e)
        if isinstance(v, str) or v is None:
            out[n] = v
        else:
            try:
                out[n] = np.asarray(v, dtype=float)
            except (TypeError, ValueError):
                pass
    return out


def canon(snap):
    h = hashlib.sha1()
    for n in sorted(snap):
        h.update(n.encode())
        h.update(snap[n].tobytes() if isinstance(snap[n], np.ndarray) else repr(snap[n]).encode())
    return h.hexdigest()


def cached(n):
    return n.startswith(('P_s_approx_', 'P_t_approx_'))


def same(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        with np.errstate(all='ignore'):
            return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-300)))
    return type(a) is type(b) and a == b


def answers(sol):
    out = {}
    for m, o in QUERIES:
        for f in ('P_s_approx', 'P_t_approx'):
            try:
                out[f, m, o] = np.asarray(sol[f](KS, method=m, order=o), float)
            except Exception as e:
                out[f, m, o] = f'{type(e).__name__}: {e}'
    return out


def cases(tier, seed):
    depth = dict(quick=3, thorough=4)[tier]
    out = []
    for c in CFG:
        for first in alphabet(CFG[c][2]):
            out.append(dict(kind='bfs', cfg=c, first=first, depth=depth))
        for a in alphabet(CFG[c][2]):
            out.append(dict(kind='shared', cfg=c, op=a))
        for u in sorted(USES):
            out.append(dict(kind='potential', cfg=c, use=u))
    return out


def _again(pot, eq, extra):
    from primpy.initialconditions import SlowRollIC, InflationStartIC
    from primpy.events import InflationEvent
    from primpy.solver import solve
    e = type(eq)(extra, pot)
    ic = InflationStartIC(e, phi_i=6.3, N_i=13., t_i=7e4) if extra else SlowRollIC(e, phi_i=6.3, N_i=0., t_i=7e4)
    b = solve(ic, events=[InflationEvent(e, -1, terminal=True)], rtol=1e-5, atol=1e-8)
    b.calibrate_scale_factor(**(dict(Omega_K0=-extra * 0.01, h=0.7) if extra else dict(N_star=2.)))


# what else a user does with a potential (and the equations) which a solution already holds
USES = {
    'As2Lambda(N)': lambda pot, eq: pot.sr_As2Lambda(A_s=3e-9, N_star=55., phi_star=None),
    'As2Lambda(phi)': lambda pot, eq: pot.sr_As2Lambda(A_s=1e-8, N_star=None, phi_star=5.),
    'phi_end': lambda pot, eq: pot.phi_end,
    'N2phi': lambda pot, eq: pot.sr_N2phi(40.),
    'phi2N': lambda pot, eq: pot.sr_phi2N(np.array([4., 5.])),
    'inv_V': lambda pot, eq: pot.inv_V(pot.V(np.array([4., 5.]))),
    'V': lambda pot, eq: [pot.V(XS), pot.dV(XS), pot.d2V(XS), pot.d3V(XS), pot.d4V(XS)],
    'eps': lambda pot, eq: [pot.get_epsilon_1V(4.), pot.get_epsilon_2V(XS), pot.get_epsilon_3V(XS), pot.get_epsilon_4V(XS)],
    'epsH': lambda pot, eq: [pot.get_epsilon_1(4.), pot.get_epsilon_2(XS)],
    'ns,r': lambda pot, eq: [type(pot).sr_Nstar2ns(55., phi0=50.) if 'phi0' in vars(pot) else type(pot).sr_Nstar2ns(55.),
                             type(pot).sr_Nstar2r(55., phi0=50.) if 'phi0' in vars(pot) else type(pot).sr_Nstar2r(55.)],
    'new potential': lambda pot, eq: type(pot)(A_s=3e-9, N_star=50., **({'phi0': 30.} if hasattr(pot, 'phi0') else {})),
    'flat solution': lambda pot, eq: _again(pot, eq, 0),
    'open solution': lambda pot, eq: _again(pot, eq, -1),
    'closed solution': lambda pot, eq: _again(pot, eq, 1),
}
XS = np.array([3.9, 4., 5.2])


def run_potential(case, ctx, cfg, ops, env, fresh_):
    """Using the potential (and equations) of a solution elsewhere, twice in any combination, leaves the solution alone."""
    cal = 'N50' if CFG[cfg][2] == 0 else 'O1'
    make0, eq0, pot0 = fresh_
    ref = make0()
    assert apply(ref, ops[cal], env) is None
    want, wans = snapshot(ref), answers(ref)
    wpot = [pot0.Lambda] + [np.array(f(XS)) for f in (pot0.V, pot0.dV, pot0.d2V, pot0.d3V, pot0.d4V, pot0.get_epsilon_1V)] + [pot0.phi_end]
    for second in [None] + sorted(USES):
        make, eq, pot = fresh(cfg)
        b = make()
        assert apply(b, ops[cal], env) is None
        key = f"potential:{cfg}:{case['use']}" + (f'>{second}' if second else '')
        for u in (case['use'], second):
            if u:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        USES[u](pot, eq)
                    except Exception:
                        ctx.outcome('use raised')
        gpot = [pot.Lambda] + [np.array(f(XS)) for f in (pot.V, pot.dV, pot.d2V, pot.d3V, pot.d4V, pot.get_epsilon_1V)] + [pot.phi_end]
        for n, x, y in zip(('Lambda', 'V', 'dV', 'd2V', 'd3V', 'd4V', 'eps1V', 'phi_end'), gpot, wpot):
            ctx.close(f'{key}:potential.{n}', x, y, 1e-12, 0, n)
        for stage in ('kept', 'recalibrated', 'solved again'):
            if stage == 'recalibrated':
                apply(b, ops[cal], env)
            if stage == 'solved again':
                b = make()
                apply(b, ops[cal], env)
            snap, got = snapshot(b), answers(b)
            for n in sorted(want):
                if not cached(n) and not (n in snap and same(snap[n], want[n])):
                    ctx.bad(f'{key}:{stage}:{n}', f'{brief(snap.get(n))}, without these uses {brief(want[n])}')
            for q in got:
                if not same(got[q], wans[q]):
                    ctx.bad(f'{key}:{stage}:{q}', f'{brief(got[q])}, without these uses {brief(wans[q])}')
            ctx.ev(len(got) + len(want))
    ctx.add('potential_histories', 1 + len(USES))


class Oracle:
    """Answers of a fresh solution after (calibration, last derivation), each query asked of its own fresh solution."""

    def __init__(self, make, ops, env):
        self.make, self.ops, self.env = make, ops, env
        self.memo = {}

    def base(self, cal, der):
        key = (cal, der)
        if key not in self.memo:
            sol = self.new(cal, der)
            snap = snapshot(sol)
            ans = {}
            for m, o in QUERIES:
                for f in ('P_s_approx', 'P_t_approx'):
                    s = self.new(cal, der)
                    try:
                        ans[f, m, o] = np.asarray(s[f](KS, method=m, order=o), float)
                    except Exception as e:
                        ans[f, m, o] = f'{type(e).__name__}: {e}'
            self.memo[key] = (snap, ans)
        return self.memo[key]

    def query(self, cal, der, name):
        """The answer of one query as the first one after (calibration, last derivation)."""
        if (cal, der, name) not in self.memo:
            env = dict(self.env)
            apply(self.new(cal, der), self.ops[name], env)
            self.memo[cal, der, name] = env['answer']
        return self.memo[cal, der, name]

    def new(self, cal, der):
        sol = self.make()
        err = apply(sol, self.ops[cal], self.env)
        assert err is None, err
        for d in der if isinstance(der, tuple) else [der] if der else []:
            err = apply(sol, self.ops[d], self.env)
            assert err is None, err
        return sol


def donor(cfg):
    """A separately solved universe with the same content, to copy a calibration from."""
    make, _, _ = fresh(cfg)
    b = make()
    b.calibrate_scale_factor(N_star=57., rho_reh_GeV=1e6)
    return b


def run(case, ctx):
    cfg = case['cfg']
    K = CFG[cfg][2]
    ops = alphabet(K)
    env = dict(donor=donor(cfg) if K == 0 else None)
    make, eq, pot = fresh(cfg)
    if case['kind'] == 'shared':
        return run_shared(case, ctx, cfg, ops, env, make)
    if case['kind'] == 'potential':
        return run_potential(case, ctx, cfg, ops, env, (make, eq, pot))
    orc = Oracle(make, ops, env)
    isq = {n: o[0] in ('query',) for n, o in ops.items()}
    seen = {}
    frontier = [()]
    first = case['first']
    trans = 0
    for depth in range(1, case['depth'] + 1):
        nxt = []
        for path in frontier:
            for name in ([first] if depth == 1 else ops):
                hist = path + (name,)
                sol = make()
                cal = der = None
                spec = five = False
                for i, n in enumerate(hist):
                    last = i == len(hist) - 1
                    before = snapshot(sol) if last and isq[n] else None
                    err = apply(sol, ops[n], env)
                    kind = ops[n][0]
                    if kind in ('cal', 'ns', 'copy'):
                        cal, der, spec, five = n, None, err is None, False
                    elif kind == 'derive':
                        if err is not None:
                            spec = False
                        elif n == 'dLLMSk5' or five and 'LLMS' not in n:
                            five, der = True, ('dLLMSk5',) + (() if n == 'dLLMSk5' else (n,))   # spectra derived with another spline stay
                        else:
                            five, der = False, n
                trans += 1
                ctx.ev()
                key = f'{cfg}:' + '>'.join(hist)
                snap = snapshot(sol)
                if before is not None and spec:
                    for n in sorted(set(before) | set(snap)):
                        if cached(n) or n not in before and n.startswith('_'):
                            continue   # remembering a spectrum is fine
                        if not (n in before and n in snap and same(before[n], snap[n])):
                            ctx.bad(f'{key}:query changes {n}', f'{brief(before.get(n))} -> {brief(snap.get(n))}')
                    want = orc.query(cal, der, name)
                    got = env['answer']
                    if not (want is None and got is None or want is not None and got is not None and all(map(same, got, want))):
                        ctx.bad(f'{key}:answer', f'{brief(got and got[0])}, asked first of all {brief(want and want[0])}')
                if spec:
                    compare(ctx, key, orc, sol, snap, cal, der)
                    ctx.outcome('compared with fresh')
                else:
                    ctx.outcome('unspecified (no successful calibration last)')
                c = canon(snap)
                if c not in seen:
                    seen[c] = hist
                    nxt.append(hist)
                if len(ctx.viol) > 60:
                    return
        frontier = nxt
    ctx.add('states', len(seen))
    ctx.add('transitions', trans)
    ctx.add('traces_validated_against_impl', trans)
    ctx.sample = dict(states=len(seen), transitions=trans, longest=list(max(seen.values(), key=len)))


def brief(v):
    return repr(v.ravel()[:3].tolist()) + f' shape {v.shape}' if isinstance(v, np.ndarray) else repr(v)


def compare(ctx, key, orc, sol, snap, cal, der):
    want, wans = orc.base(cal, der)
    for n in sorted(set(want) | set(snap)):
        if cached(n) and (n not in want or n not in snap):
            continue   # a cached spectrum may or may not be there yet; its value is checked through the queries
        if n not in want and n.startswith('_') and n[1:] not in want:
            continue   # internal book keeping
        if n not in want:
            ctx.bad(f'{key}:{n}', f'left over from earlier: {brief(snap[n])}; a fresh solution has no such attribute')
        elif n not in snap:
            ctx.bad(f'{key}:{n}', 'missing, a fresh solution has it')
        elif not same(snap[n], want[n]):
            ctx.bad(f'{key}:{n}', f'{brief(snap[n])}, a fresh solution has {brief(want[n])}')
    got = answers(sol)
    ctx.ev(len(got))
    for q in got:
        if not same(got[q], wans[q]):
            ctx.bad(f'{key}:{q[0]}(method={q[1]},order={q[2]})', f'{brief(got[q])}, a fresh solution answers {brief(wans[q])}')


def run_shared(case, ctx, cfg, ops, env, make):
    """Two solutions of one set of equations: operating on one leaves the other alone."""
    n = 0
    for other in ops:
        if ops[other][0] not in ('cal', 'ns'):
            continue
        a, b = make(), make()
        if apply(b, ops[other], env) is not None:
            continue
        before, wans = snapshot(b), answers(b)
        before = snapshot(b)
        apply(a, ops[case['op']], env)
        if ops[case['op']][0] in ('query', 'derive'):   # needs a calibration first
            apply(a, ops['reh'], env)
            apply(a, ops[case['op']], env)
        after = snapshot(b)
        key = f"shared:{cfg}:{other}|{case['op']}"
        for x in sorted(set(before) | set(after)):
            if not (x in before and x in after and same(before[x], after[x])):
                ctx.bad(f'{key}:{x}', f'{brief(before.get(x))} -> {brief(after.get(x))} by operating on another solution')
        got = answers(b)
        for q in got:
            if not same(got[q], wans[q]):
                ctx.bad(f'{key}:{q}', f'{brief(wans[q])} -> {brief(got[q])} by operating on another solution')
        ctx.ev(len(got) + len(before))
        n += 1
    ctx.add('shared_pairs', n)
