"""C03: accept/reject table of every potential constructor, and the A_s normalisation."""
import itertools
import warnings

import mpmath as mp
import numpy as np

from mc import jet as J, pots

PID, LEVEL = 'C03', 'exploration'
TECHNIQUE = "exhaustive enumeration of constructor argument subsets on the real code against a decision table and jet oracle"
NOTE = ("every class x every subset of {Lambda, A_s, N_star, phi_star, each shape parameter, an unknown or foreign name} "
        "x a small value alphabet (with an explicit None for N_star and phi_star) is executed; other values of the arguments are not covered")
RULE = ("complete product: class x shape parameters x presence/value of each keyword (2-4 values each); non-trivial: the "
        "constructor's verdict, and on success Lambda and every parameter, were compared with the decision table")
ASSUMPTIONS = ["an explicit Lambda=1 (the default) is not distinguishable from an omitted one, so no warning is required"]
ABSENT = '-'
FOREIGN = ['foo', 'mass', 'p', 'phi0', 'alpha', 'phi_feature', 'lambda', 'As']


def cases(tier, seed):
    out = []
    for n, pl in pots.catalogue('thorough').items():
        pl = [x for x in pl if x[0].get('phi0', 10) >= 10]
        for kw, ref in pl:
            out.append(dict(name=n, kw=kw, ref=ref))
    return out


def amplitude(Vref, ref, x, Lam):
    j = Vref(J.Jet.var(mp.mpf(x), 1), **ref)
    e1 = (j.c[1] / j.c[0]) ** 2 / 2
    return float(j.c[0] * mp.mpf(Lam) ** 4 / (24 * mp.pi ** 2 * e1))


def stars(name, ref, pot):
    """Pivot field values well on the inflating branch, and e-fold numbers that lead to such values."""
    R = pots.reference(name)
    if R in (pots.v_natural, pots.v_doublewell):
        phis = [0.3 * ref['phi0'], 0.6 * ref['phi0']]
    elif R is pots.v_monomial:
        phis = [8., 15.]
    elif R is pots.v_tmodel:
        s = float(mp.sqrt(6 * ref['alpha']))
        phis = [0.9 * s + 1, 1.5 * s + 1]
        phis = [x for x in phis if x / s < 8] or [3 * s]
    elif R is pots.v_radion:
        phis = [5., 9.]
    else:
        phis = [4.3, 5.4]
    return phis, [20., 55.]


def run(case, ctx):
    import primpy.potentials as pp
    from primpy.exceptionhandling import PrimpyWarning
    name, kw, ref = case['name'], case['kw'], case['ref']
    cls = getattr(pp, name)
    Vref = pots.reference(name)
    tag = f"{name}({','.join(f'{k}={v:.6g}' for k, v in kw.items())})"
    base = cls(**kw)
    phis, Ns = stars(name, ref, base)

    def build(args):
        given = dict(args)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                pot, err = cls(**args), None
            except Exception as e:
                pot, err = None, e
        ctx.true(f'{tag}:{sorted(args)}:kwargs', args == given, 'constructor changed the caller\'s dictionary')
        return pot, err, [i for i in w if issubclass(i.category, PrimpyWarning)]

    def star_phi(args):
        return args['phi_star'] if args.get('phi_star') is not None else float(base.sr_N2phi(args['N_star']))

    Lams, Ass = [ABSENT, 1, 0.01, 3.], [ABSENT, 2.1e-9, 1e-4]
    shapes = [(k, [v, ABSENT]) for k, v in kw.items()]
    extra = [ABSENT] + [f for f in FOREIGN if f not in kw]
    for Lam, As, N, phi, ex in itertools.product(Lams, Ass, [ABSENT, None] + Ns, [ABSENT, None] + phis, extra):
        if As == ABSENT and None in (N, phi):
            continue     # an explicit None without A_s: not specified whether that counts as an argument
        for shape in itertools.product(*[s[1] for s in shapes]):
            args = {k: v for (k, _), v in zip(shapes, shape) if v != ABSENT}
            for k, v in (('Lambda', Lam), ('A_s', As), ('N_star', N), ('phi_star', phi)):
                if v != ABSENT:
                    args[k] = v
            if ex != ABSENT:
                args[ex] = 1.5
            missing = len(args.keys() & kw.keys()) < len(kw)
            if As == ABSENT:
                legal = N == ABSENT and phi == ABSENT
            else:
                legal = (N in (ABSENT, None)) != (phi in (ABSENT, None))
            legal = legal and not missing and ex == ABSENT
            key = f"{tag}:{ {k: v for k, v in args.items() if k not in kw} }" + \
                  (f":without {sorted(kw.keys() - args.keys())}" if missing else '')
            pot, err, warned = build(args)
            if not legal:
                ctx.true(key + ':accepted', err is not None, 'illegal combination of arguments accepted')
                ctx.outcome('rejected')
                continue
            ctx.outcome('accepted')
            if not ctx.true(key + ':rejected', err is None, f'legal combination rejected: {err!r}'):
                continue
            for k, v in kw.items():
                ctx.true(key + ':' + k, getattr(pot, k) == v, f'{k}={getattr(pot, k)!r}, requested {v!r}')
            if As == ABSENT:
                ctx.true(key + ':Lambda', pot.Lambda == (1 if Lam == ABSENT else Lam), f'Lambda={pot.Lambda!r}')
                ctx.true(key + ':warning', not warned, 'unexpected warning')
            else:
                x = star_phi(args)
                want = (As / amplitude(Vref, ref, x, 1)) ** 0.25
                ctx.close(key + ':Lambda', pot.Lambda, want, 1e-9, 0, 'Lambda from A_s')
                ctx.true(key + ':warning', bool(warned) == (Lam not in (ABSENT, 1)),
                         f'warnings: {[str(i.message) for i in warned]}')
                x0 = phis[0]
                ctx.close(key + ':V', pot.V(x0), float(Vref(J.Jet.const(mp.mpf(x0), 0), **ref).c[0] * want ** 4), 1e-8, 0, 'V')
    # --- any pivot, given as any kind of number -----------------------------------------------------------------
    deep = [x for x in pots.fields(name, ref, 'quick') if abs(x) < 25]
    for As, Lam in ((2.1e-9, ABSENT), (3e-30, 0.01), (0.5, ABSENT)):
        for how, val in [('N_star', n) for n in (2., 10, np.int64(35), np.float64(70.), 150.)] + \
                        [('phi_star', x) for x in deep + [np.float64(phis[0]), 3, np.int64(6)]]:
            if how == 'phi_star' and (isinstance(val, (int, np.int64)) and not 0 < val < ref.get('phi0', 99.)):
                continue
            try:
                x = val if how == 'phi_star' else float(base.sr_N2phi(float(val)))
                j = Vref(J.Jet.var(mp.mpf(float(x)), 1), **ref)
            except (ValueError, ZeroDivisionError):
                continue
            # the amplitude must be determined by the double x to the accuracy asked for
            if not np.isfinite(x) or not (j.c[0] > 1e-6 and abs(j.c[1]) > mp.mpf('1e-6') * j.c[0]):
                continue
            args = dict(kw, A_s=As, **{how: val}, **({} if Lam == ABSENT else dict(Lambda=Lam)))
            key = f'{tag}:A_s={As}:Lambda={Lam}:{how}={type(val).__name__} {val:.8g}'
            pot, err, warned = build(args)
            if ctx.true(key + ':rejected', err is None, f'legal combination rejected: {err!r}'):
                ctx.close(key + ':Lambda', pot.Lambda, (As / amplitude(Vref, ref, float(x), 1)) ** 0.25, 1e-8, 0, 'Lambda from A_s')
                ctx.true(key + ':warning', bool(warned) == (Lam != ABSENT), f'warnings: {[str(i.message) for i in warned]}')
            ctx.outcome('pivot')
    # --- sr_As2Lambda on potentials of any normalisation -----------------------------------------------------
    for Lam in [1, 0.01, 3.]:
        pot = cls(Lambda=Lam, **kw)
        for As in [2.1e-9, 1e-4, 1.]:
            for N, phi in [(n, None) for n in Ns] + [(None, x) for x in phis] + [(Ns[0], phis[0]), (None, None)]:
                key = f'{tag}:Lambda={Lam}:sr_As2Lambda({As},N_star={N},phi_star={phi})'
                try:
                    L, ps, Nsr = pot.sr_As2Lambda(A_s=As, N_star=N, phi_star=phi)
                except Exception as e:
                    ctx.true(key, (N is None) == (phi is None), f'legal call rejected: {e!r}')
                    continue
                if not ctx.true(key + ':accepted', (N is None) != (phi is None), 'illegal call accepted'):
                    continue
                if N is None:
                    ctx.true(key + ':phi_star', ps == phi, f'phi_star={ps!r}')
                    ctx.close(key + ':N_star', Nsr, pot.sr_phi2N(phi), 1e-12, 0, 'N_star')
                else:
                    ctx.true(key + ':N_star', Nsr == N, f'N_star={Nsr!r}')
                    ctx.close(key + ':phi_star', ps, pot.sr_N2phi(N), 1e-12, 0, 'phi_star')
                ctx.close(key + ':A_s', amplitude(Vref, ref, float(ps), float(L)), As, 1e-8, 0, 'V/(24 pi^2 eps1)')
                ctx.true(key + ':state', pot.Lambda == Lam, 'sr_As2Lambda changed the potential')
    ctx.sample = dict(phis=phis, Ns=Ns)
