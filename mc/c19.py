"""C19: shared potentials, equations, initial conditions and events do not interact (op sequences on shared objects)."""
import ctypes
import os
import pickle
import traceback
import warnings

import numpy as np

PID, LEVEL = 'C19', 'model_checking'
TECHNIQUE = "exhaustive exploration of all operation sequences on one world of shared objects, each answer against a fresh process"
NOTE = ("a world holds one potential, both equation objects, initial-condition objects, event lists, a calibrated solution and the "
        "argument arrays, all shared; every sequence of operations up to the bound is executed in a process of its own and each answer is "
        "compared with the same operation's answer as the first operation of a fresh process; the abstract state of the model is "
        "constant, so every transition must be a self-loop; arguments and the potential are compared with their initial snapshot")
RULE = ("potential/K world x all sequences (a, b, a) (quick) or all sequences of length 3 (thorough) over the operation alphabet; "
        "non-trivial: an answer was compared")
ASSUMPTIONS = ["warnings are not part of an answer (the verbose argument of shooting initial conditions sets that of the equations)",
               "answers of iterative operations may differ by their own tolerance (1e-5 for shooting, 1e-8 for others)"]
CASE_TIMEOUT = 800

WORLDS = {'flat': ('StarobinskyPotential', dict(Lambda=3.3e-3), 0, 12., 5.6),
          'closed': ('NaturalPotential', dict(Lambda=0.0055, phi0=50.), 1, 12., 15.),
          'open': ('QuadraticPotential', dict(Lambda=0.0025), -1, 9.5, 15.)}
FAST = dict(rtol=1e-7, atol=1e-13)


def cases(tier, seed):
    ops = list(OPS)
    out = [dict(world=w, queries=f) for w in WORLDS for f in ('T', 'N', 'pot')]
    for w in WORLDS:
        for a in ops:
            if tier == 'thorough':
                out += [dict(world=w, first=a, second=b) for b in ops]
            else:
                out.append(dict(world=w, first=a))
    return out


class World:
    def __init__(self, name):
        import primpy.potentials as pp
        from primpy.time.inflation import InflationEquationsT
        from primpy.efolds.inflation import InflationEquationsN
        from primpy.initialconditions import SlowRollIC, InflationStartIC, ISIC_Nt, ISIC_NsOk
        from primpy.events import InflationEvent, CollapseEvent, UntilNEvent
        cls, self.kw, K, N_i, phi = WORLDS[name]
        self.cls, self.K, self.N_i, self.phi = getattr(pp, cls), K, N_i, phi
        self.pot = self.cls(**self.kw)
        self.eqT, self.eqN = InflationEquationsT(K, self.pot), InflationEquationsN(K, self.pot, track_time=True)
        self.events = {e: [InflationEvent(q, +1), InflationEvent(q, -1, terminal=True), CollapseEvent(q), UntilNEvent(q, 1e3)]
                       for e, q in (('T', self.eqT), ('N', self.eqN))}
        k = dict(phi_i=phi, t_i=1e4)
        self.sr = {'T': SlowRollIC(self.eqT, N_i=N_i, **k), 'N': SlowRollIC(self.eqN, N_i=N_i, **k)}
        self.st = {'T': InflationStartIC(self.eqT, N_i=N_i, **k), 'N': InflationStartIC(self.eqN, N_i=N_i, **k)}
        self.bracket = [phi * 1.05, phi * 0.95] if name == 'open' else [phi * 0.95, phi * 1.05]
        self.shoot = {f: ISIC_Nt(q, N_tot={'flat': 46., 'closed': 56., 'open': 56.}[name], phi_i_bracket=self.bracket, t_i=1e4, N_i=N_i)
                      for f, q in (('T', self.eqT), ('N', self.eqN))}
        self.phis = phi * np.array([0.7, 0.8, 0.9, 1.0])
        self.t_eval = N_i + np.array([0.5, 1., 2.])
        self.Ns = np.linspace(30., 70., 9)
        self.kMpc = np.logspace(-4, 0, 5)
        self.sol = self.integrate(self.sr['N'], self.events['N'])
        self.calibrate(self.sol)
        self.ks = np.exp(self.sol._logaH_star) * np.array([0.3, 1., 3.])
        self.vacua = ['RST', 'HD']
        self.y0 = np.array([1., 0.2, 0.5, -2.])       # two independent solutions of negative Wronskian
        self.y0[1::2] *= 1e4
        self.arrays = dict(phis=self.phis, t_eval=self.t_eval, Ns=self.Ns, kMpc=self.kMpc, ks=self.ks, bracket=self.bracket, kw=self.kw, y0=self.y0,
                           x=self.sol.x, y=self.sol.y)
        self.before = pickle.dumps(self.inputs())

    def inputs(self):
        """Everything that was passed in, and the potential, by value."""
        ev = {f: [(e.name, e.direction, e.terminal, e.value) for e in l] for f, l in self.events.items()}
        pot = {k: v for k, v in vars(self.pot).items() if isinstance(v, (int, float, str, np.floating, np.ndarray))}
        return dict({k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in self.arrays.items()}, events=ev, pot=pot,
                    K=(self.eqT.K, self.eqN.K), idx=(dict(self.eqT.idx), dict(self.eqN.idx)), vacua=list(self.vacua))

    def changed(self):
        b, a = pickle.loads(self.before), self.inputs()
        a['pot'] = {k: a['pot'].get(k) for k in b['pot']}      # cached results may be added
        return [k for k in b if not same(a[k], b[k], 0)]

    def integrate(self, ic, events, **kw):
        from primpy.solver import solve
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return solve(ic, events=events, **dict(FAST, **kw))

    def calibrate(self, sol, **kw):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if self.K:
                sol.calibrate_scale_factor(Omega_K0=-self.K * kw.pop('Ok', 0.01), h=0.7, **kw)
            else:
                sol.calibrate_scale_factor(N_star=kw.pop('Nstar', 50.), **kw)


def same(a, b, rtol):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], rtol) for k in a)
    if isinstance(a, (list, tuple)) and not all(isinstance(x, (int, float, np.floating)) for x in a):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, (str, type(None), bool)):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in 'fciu':
        return bool(np.all(a == b))
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.abs(b))))


def digest(s):
    out = {n: s[n] for n in ('x', 'phi', '_N', 't', 'dphidt', 'dphidN', 'H', 'w', 'N_tot', '_N_beg', '_N_end', 'phi_end', 'H_end', 'V_end',
                             'phi_beg', 'Omega_K', '_logaH', 'inflation_mask', 'status', '_N_events', 'phi_events', 'K') if n in s}
    out['keys'] = sorted(k for k in s.keys() if not k.startswith('__'))
    return out


CAL = ('N_star', 'a0', 'N0', '_N_star', '_logaH_star', 'H_star', 'phi_star', 'A_s', 'n_s', 'n_run', 'r', 'n_t', 'Omega_K0', 'h', 'N_cross', 'N_dagg',
       'N_reh', '_N_reh', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'cHH_Mpc', 'k_iMpc', 'k_comoving', 'N_end', 'N_beg', 'delta_N_calib')


def op_pot(w):
    p, out = w.pot, {}
    for n in ('V', 'dV', 'd2V', 'd3V', 'd4V', 'get_epsilon_1V', 'get_epsilon_2V', 'get_epsilon_1', 'get_epsilon_2', 'get_epsilon_3'):
        out[n] = np.array(getattr(p, n)(w.phis))
        out[n + '0'] = float(getattr(p, n)(w.phi))
    out['end'] = float(np.ravel(p.get_phi_end() if hasattr(p, 'get_phi_end') else p.phi_end)[0]) if not callable(getattr(p, 'phi_end', 0)) else \
        float(np.ravel(p.phi_end())[0])
    out['N'] = np.array(p.sr_phi2N(w.phis))
    out['back'] = np.array(p.sr_N2phi(w.Ns))
    out['inv'] = np.array(p.inv_V(p.V(w.phis)))
    return out


def op_sr(w):
    p, kw = w.pot, {k: v for k, v in w.kw.items() if k != 'Lambda'}
    out = {n: [float(x) for x in np.ravel(np.array(v, dtype=float))] for n, v in
           [('As', p.sr_As2Lambda(A_s=2e-9, phi_star=None, N_star=50., **kw)), ('ns', p.sr_Nstar2ns(w.Ns, **kw)), ('r', p.sr_Nstar2r(w.Ns, **kw)),
            ('N', [p.sr_ns2Nstar(float(p.sr_Nstar2ns(N, **kw)), **kw) for N in w.Ns])]}
    return out


def op_newpot(w):
    kw = {k: v for k, v in w.kw.items() if k != 'Lambda'}
    p = w.cls(A_s=1.5e-9, N_star=45., **kw)
    q = w.cls(Lambda=7e-4, **kw)
    return dict(L=p.Lambda, V=p.V(w.phis), W=q.V(w.phis), d=q.d2V(w.phis), N=q.sr_phi2N(w.phis))


def op_flow(w):
    y = {'T': np.vstack((w.phis, -1e-6 * w.phis, w.N_i + w.phis / 9)), 'N': np.vstack((w.phis, -0.1 * w.phis / 9, 5. + w.phis))}
    x = {'T': 3. + w.phis, 'N': w.N_i + w.phis / 9}
    out = {}
    for f, eq in (('T', w.eqT), ('N', w.eqN)):
        for n in ('H2', 'w', 'inflating', 'V', 'd2Vdphi2', 'phi'):
            if hasattr(eq, n):
                out[n + f] = np.array(getattr(eq, n)(x[f], y[f]))
        out['dy' + f] = np.array([eq(x[f][i], y[f][:, i]) for i in range(w.phis.size)])
    return out


def op_neweq(w):
    from primpy.time.inflation import InflationEquationsT
    from primpy.initialconditions import InflationStartIC
    from primpy.events import InflationEvent
    eq = InflationEquationsT(w.K, w.pot, track_eta=True, verbose=True)
    ic = InflationStartIC(eq, phi_i=w.phi * 0.95, N_i=w.N_i, t_i=1., eta_i=0.)
    return digest(w.integrate(ic, [InflationEvent(eq, +1), InflationEvent(eq, -1, terminal=True)]))


def op_newic(w):
    from primpy.initialconditions import SlowRollIC, InflationStartIC, ISIC_Nt
    from primpy.events import InflationEvent
    ISIC_Nt(w.eqN, N_tot=20., phi_i_bracket=[0.9 * w.phi, w.phi], t_i=0., N_i=w.N_i + 1, verbose=False, x_end=1e5)
    SlowRollIC(w.eqT, phi_i=w.phi, N_i=w.N_i + 3, t_i=0., x_end=1e5)
    a = dict(Omega_Ki=-w.K * 0.4) if w.K else dict(N_i=7.)
    s = w.integrate(InflationStartIC(w.eqN, phi_i=w.phi * 0.97, t_i=5., **a), [InflationEvent(w.eqN, -1, terminal=True)])
    return digest(s)


def cal(s):
    return {n: s[n] for n in CAL if n in s}


def op_cal(w, **kw):
    w.calibrate(w.sol, **kw)
    return dict(cal(w.sol), P=w.sol.P_s_approx(w.kMpc), T=w.sol.P_t_approx(w.kMpc))


def op_osc(w, **kw):
    from primpy.oscode_solver import solve_oscode
    w.calibrate(w.sol)
    p = solve_oscode(w.sol, w.ks, vacuum=w.vacua, rtol=1e-4, fac_beg=30, **kw)
    return {n: np.array(getattr(p, n)) for n in ('P_s_RST', 'P_t_RST', 'P_s_HD', 'P_t_HD', 'k', 'k_iMpc')}


def op_pert(w):
    from primpy.efolds.perturbations import PerturbationN
    w.calibrate(w.sol)
    p = PerturbationN(w.sol, float(w.ks[1]))
    out = {}
    for m in (p.scalar, p.tensor):
        out[m.tag] = [np.array(m.ms_frequency), np.array(m.ms_damping)] + [np.array(getattr(m, 'get_vacuum_ic_' + v)()) for v in ('k', 'HD', 'RST')]
    return out


def op_fail(w):
    """Operations that have to fail: they must leave everything they were given usable."""
    from primpy.initialconditions import ISIC_Nt, InflationStartIC
    from primpy.oscode_solver import solve_oscode
    out = {}
    w.calibrate(w.sol)
    for n, f in [('shoot', lambda: w.integrate(ISIC_Nt(w.eqN, N_tot=3e3, phi_i_bracket=w.bracket, t_i=1e4, N_i=w.N_i), w.events['N'])),
                 ('k', lambda: solve_oscode(w.sol, w.ks * 1e40, rtol=1e-4, fac_beg=30)),
                 ('vacuum', lambda: solve_oscode(w.sol, w.ks, vacuum=('BD',), rtol=1e-4, fac_beg=30)),
                 ('pot', lambda: w.cls(Lambda=1e-3, nonsense=3)),
                 ('ic', lambda: InflationStartIC(w.eqT, phi_i=w.phi)),
                 ('method', lambda: w.integrate(w.sr['T'], w.events['T'], method='nonsense'))]:
        try:
            f()
            out[n] = 'no error'
        except Exception as e:
            out[n] = type(e).__name__
    return out


def op_bb(w):
    import primpy.bigbang as bb
    N = np.array([-5., -3., -1., 0.])
    return dict(a0=bb.get_a0(0.7, -0.01), H=bb.Hubble_parameter(N + np.log(bb.get_a0(0.7, -0.01)), 0.3, -0.01, 0.7),
                c=bb.comoving_Hubble_horizon(N + np.log(bb.get_a0(0.7, -0.01)), 0.3, -0.01, 0.7, units='Mpc'), N=N,
                r=bb.conformal_time(np.log(bb.get_a0(0.7, -0.01)) - 30, np.log(bb.get_a0(0.7, -0.01)), 0.3, -0.01, 0.7)[0]
                if isinstance(bb.conformal_time(100., 101., 0.3, -0.01, 0.7), tuple) else
                bb.conformal_time(np.log(bb.get_a0(0.7, -0.01)) - 30, np.log(bb.get_a0(0.7, -0.01)), 0.3, -0.01, 0.7))


OPS = {
    'srT': lambda w: digest(w.integrate(w.sr['T'], w.events['T'])),
    'srN': lambda w: digest(w.integrate(w.sr['N'], w.events['N'], dense_output=True)),
    'startT': lambda w: digest(w.integrate(w.st['T'], w.events['T'], method='DOP853')),
    'startN': lambda w: digest(w.integrate(w.st['N'], w.events['N'])),
    'sampleN': lambda w: digest(w.integrate(w.sr['N'], w.events['N'], t_eval=w.t_eval)),
    'plainN': lambda w: digest(w.integrate(limited(w), [])),
    'shootN': lambda w: dict(shoot=digest(w.integrate(w.shoot['N'], w.events['N']))['N_tot'], phi=float(w.shoot['N'].phi_i)),
    'shootT': lambda w: dict(shoot=digest(w.integrate(w.shoot['T'], w.events['T']))['N_tot'], phi=float(w.shoot['T'].phi_i)),
    'pot': op_pot, 'sr': op_sr, 'newpot': op_newpot, 'flow': op_flow, 'neweq': op_neweq, 'newic': op_newic,
    'cal': op_cal, 'cal2': lambda w: op_cal(w, **(dict(Ok=1e-4) if w.K else dict(Nstar=40., rho_reh_GeV=1e9))),
    'osc': op_osc, 'osc1': lambda w: op_osc(w, num_eval=5, y0=w.y0), 'pert': op_pert, 'bb': op_bb, 'fail': op_fail,
}
RTOL = {'shootN': 1e-5, 'shootT': 1e-5}


def limited(w):
    from primpy.initialconditions import SlowRollIC
    return SlowRollIC(w.eqN, phi_i=w.phi, N_i=w.N_i, t_i=1., x_end=w.N_i + 3)


def forked(fn):
    """fn() in a process of its own."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            ctypes.CDLL(None).prctl(1, 9)      # die with the parent
            os.close(r)
            try:
                res = ('ok', fn())
            except Exception as e:
                res = ('error', f'{type(e).__name__}: {e}\n' + traceback.format_exc(limit=-3))
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('error', 'the process died')


def alone(w, op):
    a = OPS[op](w)
    return a, w.changed()


REF = {}


def prepare(tier, seed):
    """Import everything once; each answer and each sequence is computed in a fork that starts from an untouched world."""
    import primpy.potentials, primpy.solver, primpy.oscode_solver, primpy.bigbang    # noqa: F401,E401  imported once, not in each fork
    import primpy.time.perturbations, primpy.efolds.perturbations    # noqa: F401,E401


def pristine(world):
    if world not in REF:
        REF[world] = World(world)
    return REF[world]


def reference(world, op):
    w = pristine(world)
    if (world, op) not in REF:
        REF[world, op] = forked(lambda: alone(w, op))
    return REF[world, op]


def history(w, seq):
    out = []
    for op in seq:
        try:
            out.append(OPS[op](w))
        except Exception as e:
            out.append(f'{type(e).__name__}: {e}')
    return out, w.changed()


def grid(w, f):
    """Points of phase space that differ in one or more coordinates: (x, y) for the equations, phi for the potential."""
    import itertools
    if f == 'pot':
        return [w.phi, 0.9 * w.phi, np.array([w.phi, 0.9 * w.phi]), np.array([0.9 * w.phi, w.phi]), int(w.phi)]
    out = []
    for i, phi, dphi, N in itertools.product((0, 1), (w.phi, 0.9 * w.phi), (0, 1), (w.N_i + 1, w.N_i + 2)):
        eq = w.eqT if f == 'T' else w.eqN
        V = float(w.pot.V(w.phi))
        y = np.zeros(len(eq.idx))
        y[eq.idx['phi']] = phi
        if f == 'T':
            y[eq.idx['_N']], y[eq.idx['dphidt']] = N, -(0.1, 0.9)[dphi] * V**0.5
        else:
            y[eq.idx['t']], y[eq.idx['dphidN']] = 1e4 * N, -(0.1, 1.3)[dphi]
        out.append((((1e4, 2e4) if f == 'T' else (w.N_i + 1, w.N_i + 2))[i], y))
    return out + [(np.array([out[0][0], out[5][0]]), np.array([out[0][1], out[5][1]]).T)]


def queries(w, f):
    """name -> function of a point, on the shared objects of the world."""
    if f == 'pot':
        names = ('V', 'dV', 'd2V', 'd3V', 'd4V', 'get_epsilon_1V', 'get_epsilon_2V', 'get_epsilon_3V', 'get_epsilon_4V', 'sr_phi2N')
        return {n: getattr(w.pot, n) for n in names if hasattr(w.pot, n)}
    eq = w.eqT if f == 'T' else w.eqN
    names = ('H2', 'H', 'w', 'inflating', 'V', 'dVdphi', 'd2Vdphi2', 'd3Vdphi3', 'phi', 't', '_N', 'dphidt', 'dphidN')
    out = {n: (lambda p, n=n: getattr(eq, n)(*p)) for n in names if hasattr(eq, n)}
    out['dy'] = lambda p: eq(*p) if np.ndim(p[0]) == 0 else np.nan
    for i, e in enumerate(w.events[f]):
        out[f'event{i}:{e.name}'] = lambda p, e=e: e(*p)
    return out


def evaluate(fn, p):
    try:
        with np.errstate(all='ignore'):
            return np.array(fn(p), dtype=float)
    except Exception as e:
        return type(e).__name__


def run_queries(world, f, ctx):
    """All sequences (p, q) of points for every function: the answer at q does not depend on p, nor on a query of another function."""
    w = pristine(world)
    pts = grid(w, f)
    fns = queries(w, f)
    ref = {}
    for n in fns:                       # the answer of each query as the first one of a process
        one = forked(lambda: [forked(lambda: evaluate(fns[n], p))[1] for p in pts])[1]
        ref.update({(n, j): one[j] for j in range(len(pts))})

    def explore():
        bad, count = [], 0
        for n in fns:
            for m in fns:
                if m != n and f != 'pot' and m not in ('H2', 'dy', 'inflating'):
                    continue
                for i, p in enumerate(pts):
                    for j, q in enumerate(pts):
                        before = [np.copy(x) for x in (q if isinstance(q, tuple) else (q,))]
                        evaluate(fns[m], p)
                        ans = evaluate(fns[n], q)
                        count += 1
                        if not same(ans, ref[n, j], 1e-13) or not all(np.array_equal(a, b) for a, b in
                                                                      zip(before, q if isinstance(q, tuple) else (q,))):
                            bad.append((m, i, n, j, repr(ans)[:60], repr(ref[n, j])[:60]))
        return bad[:20], count

    kind, got = forked(explore)
    if not ctx.true(f'{world}:queries:{f}', kind == 'ok', f'the queries fail: {got}'):
        return
    ctx.ev(got[1], got[1])
    ctx.add('states', len(pts) * len(fns))
    ctx.add('transitions', got[1])
    ctx.add('traces_validated_against_impl', got[1])
    ctx.outcome('queries')
    for m, i, n, j, ans, want in got[0]:
        ctx.bad(f'{world}:queries:{f}:{m}:{i}>{n}:{j}', f'{n} at point {j} after {m} at point {i} answers {ans}, first of all {want}')


def run(case, ctx):
    if 'queries' in case:
        return run_queries(case['world'], case['queries'], ctx)
    world, a = case['world'], case['first']
    if 'second' in case:
        seqs = [(a, case['second'], c) for c in OPS]
    else:
        seqs = [(a, b, a) for b in OPS]
    ctx.add('states', 1)
    for op in sorted({o for s in seqs for o in s}):
        kind, ref = reference(world, op)
        if not ctx.true(f'{world}:{op}:alone', kind == 'ok', f'the operation fails: {ref}'):
            return
        if op == a:
            ctx.true(f'{world}:{op}:inputs', not ref[1], f'the operation modifies what it was given: {ref[1]}')
    for seq in seqs:
        key = f'{world}:' + '>'.join(seq)
        kind, got = forked(lambda: history(pristine(world), seq))
        if not ctx.true(key, kind == 'ok', f'the sequence fails: {got}'):
            continue
        for i, (op, ans) in enumerate(zip(seq, got[0])):
            want = reference(world, op)[1][0]
            rtol = RTOL.get(op, 1e-8)
            bad = ans if isinstance(ans, str) else [k for k in want if k not in ans or not same(ans[k], want[k], rtol)]
            ctx.true(f'{key}:{i}', not bad, f'operation {i} ({op}) answers differently than in a fresh process: {bad}')
            ctx.add('transitions')
            ctx.add('traces_validated_against_impl')
        ctx.true(key + ':inputs', not got[1], f'modified what was passed in: {got[1]}')
        ctx.outcome('sequence')
