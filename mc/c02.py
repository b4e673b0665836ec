"""C02: slow-roll maps of every potential against numerical quadrature and roots of the reference V."""
import warnings

import mpmath as mp
import numpy as np

from mc import jet as J, pots

PID, LEVEL = 'C02', 'exploration'
RULE = ("complete product of potential class x shape parameters x Lambda x lattices of phi (inflating branch), N, n_s and r; "
        "non-trivial: the reference value exists (phi on the inflating branch, N within reach) and was compared")
ASSUMPTIONS = ["inflating branch: from phi_end towards the plateau or hilltop at positive phi",
               "tolerances are the double-precision conditioning of each map; 2e-5 for maps the library interpolates"]

TECHNIQUE = "bounded exhaustive exploration of the real code against a quadrature/root-finding oracle"
NOTE = ("every class x shape parameter x Lambda x lattice point of phi, N, n_s, r is executed; values between lattice "
        "points are not covered, and tolerances reflect double precision")

LAMBDAS = [1, 0.0032]
NS = [0.02, 0.5, 2., 5., 20., 40., 55., 60., 75., 90., 120., 300., 1000., 5000.]


def cases(tier, seed):
    return [dict(name=n, kw=kw, ref=ref) for n, pl in pots.catalogue(tier).items() for kw, ref in pl]


def e1(Vref, ref, x):
    j = Vref(J.Jet.var(x, 1), **ref)
    return (j.c[1] / j.c[0]) ** 2 / 2


def branch(name, ref, tier):
    """(lattice of phi on the rising branch, upper limit of the branch or None)."""
    R = pots.reference(name)
    if R is pots.v_monomial:
        return [0.2, 1., 3., 6., 10., 15., 20., 30., 60., 300.], None
    if R is pots.v_starobinsky:
        return [0.2, 0.6, 1.2, 2., 3., 4., 5., 5.5, 6., 7., 9., 13., 18., 25.], None
    if R in (pots.v_sgd, pots.v_sts):
        f, b = ref['phi_feature'], ref['b_feature']
        return [1.2, 2., f - 2 * b, f - b, f, f + b, f + 2 * b, 7.], None
    if R is pots.v_natural or R is pots.v_doublewell:
        us = [0.02, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 0.97, 0.999, 0.9999]
        return [ref['phi0'] * u for u in us], ref['phi0']
    if R is pots.v_tmodel:
        s = float(mp.sqrt(6 * ref['alpha']))
        return [s * u for u in [0.05, 0.2, 0.5, 0.9, 1.4, 2., 3., 4., 6., 8., 10., 12., 14.]], None
    if R is pots.v_radion:
        m = ref['alpha'] ** (1. / ref['p'])
        return [m * u for u in [0.05, 0.3, 0.7, 1., 1.7, 3., 6., 15., 100., 2000.]], None


def ref_phi_end(Vref, ref, top):
    """eps1 = 1 on the rising branch, by bisection in mp (eps1 decreases from infinity at the minimum)."""
    lo, hi = mp.mpf('1e-12'), (mp.mpf(top) if top else mp.mpf('1e4')) * (1 - mp.mpf('1e-15'))
    f = lambda x: mp.log(e1(Vref, ref, x) + mp.mpf('1e-300'))
    # walk up to the first sign change
    x = lo
    while x < hi and f(x) > 0:
        lo = x
        x = x * mp.mpf('1.2')
    hi = min(x, hi)
    for _ in range(110):
        mid = (lo + hi) / 2
        if f(mid) > 0:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def nofphi(Vref, ref, a, b):
    def integrand(x):
        j = Vref(J.Jet.var(x, 1), **ref)
        return j.c[0] / j.c[1]
    a, b = mp.mpf(a), mp.mpf(b)
    pts = [a + (b - a) * t / 4 for t in range(5)]
    old = mp.mp.dps
    mp.mp.dps = 20
    try:
        return mp.quad(integrand, pts)
    finally:
        mp.mp.dps = old


def run(case, ctx):
    import primpy.potentials as pp
    name, kw, ref = case['name'], case['kw'], case['ref']
    cls = getattr(pp, name)
    Vref = pots.reference(name)
    tag = f"{name}({','.join(f'{k}={v:.6g}' for k, v in kw.items())})"
    xs, top = branch(name, ref, ctx.tier)
    xe = ref_phi_end(Vref, ref, top)
    feature = 'phi_feature' in kw
    interp = Vref is pots.v_doublewell
    for Lam in LAMBDAS:
        pot = cls(Lambda=Lam, **kw)
        key = f'{tag}:Lambda={Lam}'
        # ---- inv_V --------------------------------------------------------
        invs = []
        for x in xs:
            j = Vref(J.Jet.var(x, 1), **ref)
            cond = float(abs(j.c[0] / (j.c[1] * x)))
            # a potential within rounding of its plateau cannot be inverted in double precision
            if cond * 2.3e-16 > 1e-5:
                continue
            invs.append((x, 1e-10 + 4e-14 * cond))
            V = float(j.c[0] * mp.mpf(Lam) ** 4)
            got = pot.inv_V(V)
            ctx.close(f'{key}:inv_V(V({x:.6g}))', got, x, invs[-1][1], 0, 'inv_V')
            ctx.close(f'{key}:inv_V(own V({x:.6g}))', pot.inv_V(pot.V(x)), x, invs[-1][1], 0, 'inv_V∘V')
        if invs:
            arr = np.array([pot.V(x) for x, _ in invs])
            ctx.close(f'{key}:inv_V:array', pot.inv_V(arr), [pot.inv_V(v) for v in arr], 1e-12, 0, 'inv_V array vs scalar')
        # ---- phi_end ------------------------------------------------------
        pe = pot.phi_end
        ctx.close(f'{key}:phi_end', pe, float(xe), 1e-6 if feature else 2e-9, 0, 'phi_end (eps1=1)')
        ctx.close(f'{key}:get_epsilon_1V(phi_end)', pot.get_epsilon_1V(pe), 1., 1e-5 if feature else 1e-7, 0, 'eps1V at phi_end')
        ctx.close(f'{key}:phi_end:again', pot.phi_end, pe, 0, 0, 'phi_end read twice')
        # ---- sr_phi2N -----------------------------------------------------
        ups = [x for x in xs if x > float(xe) * 1.02]
        Nref = {}
        for x in ups:
            w = float(nofphi(Vref, ref, xe, x))
            Nref[x] = w
            if w > 1e7:
                continue
            scale = x * x / 4 + abs(w) + (x ** 2 if interp else 0)
            ctx.close(f'{key}:sr_phi2N({x:.6g})', pot.sr_phi2N(x), w, 1e-8, 1e-10 * scale, 'sr_phi2N')
        ctx.close(f'{key}:sr_phi2N(phi_end)', pot.sr_phi2N(pe), 0., 0, 1e-9 * (1 + pe ** 2), 'sr_phi2N(phi_end)')
        if ups:
            arr = np.array(ups)
            ctx.close(f'{key}:sr_phi2N:array', pot.sr_phi2N(arr), [pot.sr_phi2N(x) for x in ups], 1e-12, 1e-12,
                      'sr_phi2N array vs scalar')
            ctx.true(f'{key}:sr_phi2N:input', np.array_equal(arr, np.array(ups)), 'input modified')
        # ---- sr_N2phi -----------------------------------------------------
        nmax = max([w for w in Nref.values()] or [0])
        for N in NS:
            if top and N > 0.95 * nmax:
                continue      # too close to the hilltop for double precision / the library's interpolation table
            if not top and Vref is pots.v_radion and N > 0.99 * nmax:
                continue
            if interp and N > 1000:
                continue      # interpolation table
            phi = pot.sr_N2phi(N)
            rt = 2e-5 if interp else 1e-8
            if np.iscomplexobj(phi):
                ctx.bad(f'{key}:sr_N2phi({N}):complex', f'sr_N2phi({N}) is complex: {phi!r}')
                phi = np.real(phi)
            phi = float(phi)
            ok = phi >= float(xe) * (1 - 1e-9) and (top is None or phi <= top)
            ctx.true(f'{key}:sr_N2phi({N}):branch', ok, f'sr_N2phi({N})={phi} not on the inflating branch (phi_end={xe})')
            if ok:
                ctx.close(f'{key}:sr_N2phi({N})', float(nofphi(Vref, ref, xe, phi)), N, rt, rt * 1e-2, 'N(sr_N2phi(N))')
                ctx.close(f'{key}:sr_phi2N(sr_N2phi({N}))', pot.sr_phi2N(phi), N, rt, rt * 1e-2, 'sr_phi2N∘sr_N2phi')
        usable = [N for N in NS if not (top or Vref is pots.v_radion) or N <= 0.95 * nmax]
        if usable and Vref is not pots.v_radion:      # a root search, one N at a time
            one = [float(np.real(pot.sr_N2phi(N))) for N in usable]
            arr = np.array(usable[::-1])
            ctx.close(f'{key}:sr_N2phi:array', np.real(pot.sr_N2phi(arr)), one[::-1], 1e-12, 0, 'sr_N2phi array vs scalar')
            ctx.true(f'{key}:sr_N2phi:input', np.array_equal(arr, usable[::-1]), 'input modified')
        # ---- older helpers --------------------------------------------------
        if hasattr(cls, 'phi2efolds') and not feature:
            args = {'NaturalPotential': ('phi0',), 'DoubleWell2Potential': ('phi0',), 'DoubleWell4Potential': ('phi0',)}
            for x in ups:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    got = cls.phi2efolds(x, *[ref[a] for a in args.get(name, ())])
                scale = x * x / 4 + Nref[x] + (x ** 2 if interp else 0)
                # the quartic double well's closed form loses digits for large phi0
                loose = 1e-3 if name == 'DoubleWell4Potential' and ref['phi0'] > 40 else 1e-5
                rt = loose if name == 'DoubleWell4Potential' else 1e-8
                ctx.close(f'{key}:phi2efolds({x:.6g})', got, Nref[x], rt, rt * 1e-2 * scale, 'phi2efolds')
                ctx.true(f'{key}:phi2efolds({x:.6g}):warning',
                         any(issubclass(i.category, DeprecationWarning) for i in w), 'no DeprecationWarning')
        if hasattr(cls, 'phi_end_squared'):
            ctx.close(f'{key}:phi_end_squared', np.sqrt(cls.phi_end_squared(ref['phi0'])), float(ref['phi0'] - xe),
                      1e-7, 0, 'sqrt(phi_end_squared)')
    # ---- observables --------------------------------------------------------
    if hasattr(cls, 'sr_Nstar2ns') and not feature:
        a = {k: ref[k] for k in ('p', 'phi0') if k in ref}
        a = {} if name == 'StarobinskyPotential' else a
        for N in [10., 20., 35., 50., 60., 75., 90., 150., 400.]:
            ns, r = cls.sr_Nstar2ns(N, **a), cls.sr_Nstar2r(N, **a)
            # slow-roll values at the field N e-folds before the end
            if name == 'StarobinskyPotential':
                g = pots.G                                # linear term of N(phi) neglected
                E = 2 * g ** 2 * N + 1 + mp.sqrt(2) * g
                x = mp.log(E) / g
            else:
                # invert the exact slow-roll N(phi)
                lo, hi = xe, mp.mpf(top) if top else mp.mpf(1000)
                pot = cls(**kw)
                x = mp.mpf(float(pot.sr_N2phi(N)))
            j = Vref(J.Jet.var(x, 2), **ref)
            u = j.c[1] / j.c[0]
            up = 2 * j.c[2] / j.c[0] - u * u
            ep1, ep2 = u * u / 2, -2 * up
            wns, wr = float(1 - 2 * ep1 - ep2), float(16 * ep1)
            # the published closed forms are leading order in 1/N: accept them or the full slow-roll value
            lead = None
            if Vref is pots.v_monomial:
                lead = 1 - (ref['p'] + 2) / (2 * N)
            elif name == 'StarobinskyPotential':
                g, s2 = float(pots.G), np.sqrt(2)
                lead = 1 - (2 * N * g ** 2 + s2 * g + 2) / (N * g * (N * g + s2))
            elif name == 'NaturalPotential':
                f2 = (ref['phi0'] / np.pi) ** 2
                lead = 1 - (2 * f2 + (2 * f2 + 1) * np.exp(N / f2)) / (f2 * (2 * f2 + 1) * np.expm1(N / f2))
            if lead is not None and abs(ns - lead) <= 1e-9:
                ctx.true(f'{tag}:sr_Nstar2ns({N}):leading order', abs(lead - wns) < 1.2 * max(1, ref.get('p', 1) * (ref.get('p', 1) + 2) / 8) / N ** 2,
                         f'{ns} is further than second order in 1/N from the slow-roll value {wns}')
                wns = lead
            ctx.close(f'{tag}:sr_Nstar2ns({N})', ns, wns, 1e-6, 0, 'n_s(N_star)')
            ctx.close(f'{tag}:sr_Nstar2r({N})', r, wr, 1e-7, 1e-13, 'r(N_star)')
            if abs(float(cls.sr_Nstar2ns(1.001 * N, **a) - ns)) < 1e-11:
                ctx.outcome('n_s saturated in double precision')
                continue
            ctx.close(f'{tag}:sr_ns2Nstar(sr_Nstar2ns({N}))', cls.sr_ns2Nstar(ns, **a), N,
                      1e-8 + 1e-15 * N / abs(float(cls.sr_Nstar2ns(1.001 * N, **a) - ns) * 1e3 + 1e-300) / N * 20, 0,
                      'sr_ns2Nstar')
            ctx.close(f'{tag}:sr_r2Nstar(sr_Nstar2r({N}))', cls.sr_r2Nstar(r, **a), N, 1e-8, 0, 'sr_r2Nstar')
        for n_s in [0.9, 0.95, 0.96, 0.965, 0.97, 0.98, 0.99]:
            if name == 'NaturalPotential':
                reach = ref['phi0'] >= np.pi / np.sqrt(1 - n_s)
                try:
                    N = cls.sr_ns2Nstar(n_s, **a)
                except pp.PrimpyError:
                    ctx.true(f'{tag}:sr_ns2Nstar({n_s}):error', not reach, 'reachable n_s rejected')
                    ctx.outcome('n_s rejected')
                    continue
                ctx.true(f'{tag}:sr_ns2Nstar({n_s}):accept', reach, f'unreachable n_s accepted, N_star={N}')
                if not reach:
                    continue
            else:
                N = cls.sr_ns2Nstar(n_s, **a)
            ctx.close(f'{tag}:sr_Nstar2ns(sr_ns2Nstar({n_s}))', cls.sr_Nstar2ns(N, **a), n_s, 1e-9, 0, 'n_s round trip')
        for r in [1e-5, 0.0003, 0.001, 0.01, 0.05, 0.1, 0.2]:
            N = cls.sr_r2Nstar(r, **a)
            ctx.close(f'{tag}:sr_Nstar2r(sr_r2Nstar({r}))', cls.sr_Nstar2r(N, **a), r, 1e-9, 0, 'r round trip')
    ctx.sample = dict(phi_end=float(xe))
