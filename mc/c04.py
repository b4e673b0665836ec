"""C04: background equations in t and N, and every get_* derivative, against an independent Taylor-series flow."""
import itertools

import mpmath as mp
import numpy as np

from mc import jet as J, pots

PID, LEVEL = 'C04', 'exploration'
TECHNIQUE = "bounded exhaustive exploration of background states on the real code against a Taylor-series solution of the flow"
NOTE = ("every combination of K, potential, normalisation, curvature fraction, field, velocity, formulation and tracked "
        "variables on the lattice is executed; the oracle integrates the Friedmann/Klein-Gordon equations as power series "
        "in 40 digits; states between lattice points are not covered")
RULE = ("complete product K x potential x Lambda x phi x curvature fraction x velocity x {t, N} x tracked variables; "
        "non-trivial: the state has H^2>0 and the method's value was compared with the series coefficient")
ASSUMPTIONS = ["tolerance 1e-9 relative to the natural size H^n of each derivative (double-precision cancellation)"]
M = 5


def cases(tier, seed):
    out = []
    for n, pl in pots.catalogue(tier).items():
        pick = pl if tier == 'thorough' else [pl[len(pl) // 2]]
        for kw, ref in pick:
            for K in (-1, 0, 1):
                out.append(dict(name=n, kw=kw, ref=ref, K=K))
    return out


def vcoef(Vref, ref, phi, Lam, n):
    return [c * mp.mpf(Lam) ** 4 for c in Vref(J.Jet.var(mp.mpf(phi), n), **ref).c]


def flow(v, N0, phi0, pd0, K):
    """Taylor jets (in cosmic time) of N, phi and H through one state, and of V'(phi)."""
    n = M
    ph = J.Jet([mp.mpf(phi0), mp.mpf(pd0)] + [mp.mpf(0)] * (n - 1))
    NN = J.Jet([mp.mpf(N0)] + [mp.mpf(0)] * n)

    def poly(co, d):
        r = J.Jet.const(co[-1], n)
        for c in co[-2::-1]:
            r = r * d + c
        return r
    dv = [k * v[k] for k in range(1, len(v))]
    for _ in range(n + 1):
        d = ph - ph.c[0]
        V, dV = poly(v, d), poly(dv, d)
        pd = J.Jet([(k + 1) * ph.c[k + 1] for k in range(n)] + [mp.mpf(0)])
        H2 = (pd * pd / 2 + V) / 3 - K * J.exp(-2 * NN)
        if H2.c[0] <= 0:
            return None
        H = J.sqrt(H2)
        acc = -3 * H * pd - dV
        NN = J.Jet([NN.c[0]] + [H.c[k] / (k + 1) for k in range(n)])
        ph = J.Jet([ph.c[0], ph.c[1]] + [acc.c[k] / ((k + 1) * (k + 2)) for k in range(n - 1)])
    # H is exact to order n-2, ph to order n
    return NN, ph, H


def ddN(f, H):
    """Derivative along N of a jet in t."""
    g = f.deriv()
    return g / H.trunc(g.n)


def run(case, ctx):
    import primpy.potentials as pp
    from primpy.time.inflation import InflationEquationsT as T
    from primpy.efolds.inflation import InflationEquationsN as NE
    name, kw, ref, K = case['name'], case['kw'], case['ref'], case['K']
    Vref = pots.reference(name)
    tag = f"{name}({','.join(f'{k}={v:.6g}' for k, v in kw.items())}):K={K}"
    thorough = ctx.tier == 'thorough'
    for Lam in ([1, 0.003, 2.] if thorough else [1, 0.003]):
        pot = getattr(pp, name)(Lambda=Lam, **kw)
        eqT = {e: T(K, pot, track_eta=e) for e in (False, True)}
        eqN = {te: NE(K, pot, track_time=te[0], track_eta=te[1])
               for te in itertools.product((False, True), repeat=2)}
        xs = [x for x in pots.fields(name, ref, ctx.tier) if abs(x) < 25]
        xs = xs if thorough else xs[1::2]
        for phi in xs:
            v = vcoef(Vref, ref, phi, Lam, M + 1)
            V = v[0]
            if V <= 0 or abs(v[1] * phi) < mp.mpf('1e-9') * V or V < 1e-8 * Lam ** 4:
                continue
            for frac in ([0.] if K == 0 else [1e-8, 0.02, 0.6] if K == 1 else [1e-8, 0.02, 0.6, 7.]):
                N0 = float(-mp.log(frac * V / 3) / 2) if frac else 1.5
                for u in [-1.6, -0.7, -0.05, 0.03, 0.9, 2.5] if thorough else [-1.6, -0.05, 0.7]:
                    pd0 = float(u * mp.sqrt(V))
                    f = flow(v, N0, phi, pd0, K)
                    if f is None:
                        continue
                    state(ctx, f'{tag}:Lambda={Lam}:phi={phi:.6g}:frac={frac}:u={u}', T, NE, eqT, eqN, pot, v, f, K)


def state(ctx, key, T, NE, eqT, eqN, pot, v, f, K):
    NN, ph, H = f
    fl = float
    Hs = fl(H.c[0])
    mu = max(Hs, fl(mp.sqrt(abs(v[0]))), fl(abs(ph.c[1])), fl(mp.exp(-NN.c[0])) if K else 0)   # natural rate
    rate = mu * max(1., fl(abs(v[1] / v[0])), fl(abs(v[2] / v[0])) ** 0.5 * 1.5, fl(abs(v[3] / v[0])) ** (1 / 3.) * 2)
    r = 2e-10

    def chk(what, got, want, scale):
        ctx.close(f'{key}:{what}', got, fl(want), 1e-9, r * scale, what)

    for form in ('T', 'N'):
        E = T if form == 'T' else NE
        if form == 'T':
            h = [fl(H.d(k)) for k in range(4)]
            p = [fl(ph.d(k)) for k in range(5)]
            un = rate
            hu, pu = mu, mu
        else:
            hj = [H]
            pj = [ph]
            for _ in range(4):
                pj.append(ddN(pj[-1], H))
                if len(hj) < 4:
                    hj.append(ddN(hj[-1], H))
            h = [fl(x.c[0]) for x in hj]
            p = [fl(x.c[0]) for x in pj]
            un = max(1., rate / Hs)
            hu, pu = mu * mu / Hs, mu / Hs
        dV, d2V, d3V = fl(v[1]), fl(2 * v[2]), fl(6 * v[3])
        N = fl(NN.c[0])
        a = lambda n, s=1.: s * un ** n
        if form == 'N' and not 6 - p[1] ** 2 > 1e-6:
            # Friedmann's equation cannot be solved for H^2 as a function of dphi/dN here
            continue
        h2tol = Hs ** 2 * (6 / abs(6 - p[1] ** 2) if form == 'N' else mu ** 2 / Hs ** 2)
        chk(form + '.get_H2', E.get_H2(N=N, dphi=p[1], V=fl(v[0]), K=K), Hs ** 2, h2tol * (mu / Hs) ** 2)
        chk(form + '.get_dH', E.get_dH(N=N, H=h[0], dphi=p[1], K=K), h[1], hu * un)
        chk(form + '.get_dH_H', E.get_dH_H(N=N, H2=Hs ** 2, dphi=p[1], K=K), h[1] / h[0], hu * un / Hs)
        chk(form + '.get_d2H', E.get_d2H(N=N, H=h[0], dH=h[1], dphi=p[1], d2phi=p[2], K=K), h[2], hu * un ** 2)
        chk(form + '.get_d3H', E.get_d3H(N=N, H=h[0], dH=h[1], d2H=h[2], dphi=p[1], d2phi=p[2], d3phi=p[3], K=K), h[3],
            hu * un ** 3)
        chk(form + '.get_d2phi', E.get_d2phi(H2=Hs ** 2, dH_H=h[1] / h[0], dphi=p[1], dV=dV), p[2], pu * un)
        chk(form + '.get_d3phi', E.get_d3phi(H=h[0], dH=h[1], d2H=h[2], dphi=p[1], d2phi=p[2], dV=dV, d2V=d2V), p[3],
            pu * un ** 2)
        chk(form + '.get_d4phi', E.get_d4phi(H=h[0], dH=h[1], d2H=h[2], d3H=h[3], dphi=p[1], d2phi=p[2], d3phi=p[3],
                                             dV=dV, d2V=d2V, d3V=d3V), p[4], pu * un ** 3)
        # --- flow parameters from the series --------------------------------------------------------------------
        e1 = -H.deriv() / (H * H).trunc(M - 1)
        e1p = ddN(e1, H)
        e2g = e1p
        e3g = e1.deriv().deriv().c[0] / H.c[0] ** 2
        chk(form + '.get_epsilon_1H', E.get_epsilon_1H(H=h[0], dH=h[1]), e1.c[0], abs(fl(e1.c[0])) + hu * un / Hs)
        chk(form + '.get_epsilon_2H(Gong)', E.get_epsilon_2H(H=h[0], dH=h[1], d2H=h[2], kind='Gong'), e2g.c[0],
            (hu * un / Hs) ** 2 + hu * un ** 2 / Hs)
        chk(form + '.get_epsilon_3H(Gong)', E.get_epsilon_3H(H=h[0], dH=h[1], d2H=h[2], d3H=h[3], kind='Gong'), e3g,
            (hu * un / Hs + 1) ** 3 * 10 * max(1, rate / Hs) ** 3)
        if abs(e1.c[0]) > 1e-12:
            q = fl(abs(hu * un / Hs / e1.c[0])) + 1
            e2 = e1p / e1.trunc(e1p.n)
            chk(form + '.get_epsilon_2H', E.get_epsilon_2H(H=h[0], dH=h[1], d2H=h[2]), e2.c[0], 10 * q * max(1, rate / Hs) ** 2)
            if abs(e2.c[0]) > 1e-5:
                e2p = ddN(e2, H)
                e3 = e2p.c[0] / e2.c[0]
                q2 = q + max(1, rate / Hs) ** 2 * q / abs(fl(e2.c[0]))
                chk(form + '.get_epsilon_3H', E.get_epsilon_3H(H=h[0], dH=h[1], d2H=h[2], d3H=h[3]), e3,
                    100 * q2 ** 2 * max(1, rate / Hs))
        for n, fn, args in ((1, E.get_delta_1, dict(H=h[0], dH=h[1], dphi=p[1], d2phi=p[2])),
                            (2, E.get_delta_2, dict(H=h[0], dH=h[1], d2H=h[2], dphi=p[1], d2phi=p[2], d3phi=p[3])),
                            (3, E.get_delta_3, dict(H=h[0], dH=h[1], d2H=h[2], d3H=h[3], dphi=p[1], d2phi=p[2], d3phi=p[3],
                                                    d4phi=p[4]))):
            want = ph.d(n + 1) / (H.c[0] ** n * ph.c[1])
            chk(f'{form}.get_delta_{n}', fn(**args), want,
                10 * (max(1, rate / Hs) * (1 + hu * un / Hs)) ** n * (1 + pu / abs(p[1])))
    # --- right-hand sides and derived quantities from packed state vectors -----------------------------------------
    N, phi, pd = fl(NN.c[0]), fl(ph.c[0]), fl(ph.c[1])
    pN = fl(ph.c[1] / H.c[0])
    w = fl((ph.c[1] ** 2 / 2 - v[0]) / (ph.c[1] ** 2 / 2 + v[0]))
    infl = fl(v[0] - ph.c[1] ** 2)
    want = {'phi': None, 'dphidt': fl(ph.d(2)), '_N': Hs, 't': 1 / Hs}
    for form in ('T', 'N'):
        for opt, eq in (eqT if form == 'T' else eqN).items():
            st = {'phi': phi, '_N': N, 't': 3.7, 'eta': 5.1, 'dphidt': pd, 'dphidN': pN}
            if form == 'N' and not 6 - pN ** 2 > 1e-6:
                continue
            amp = 6 / (6 - pN ** 2) if form == 'N' else (mu / Hs) ** 2
            x = 3.7 if form == 'T' else N
            y = np.array([st[n] for n in eq.idx])
            k = f'{form}{opt}'
            dy = eq(x, y)
            ctx.true(f'{key}:{k}.shape', np.shape(dy) == np.shape(y), f'rhs shape {np.shape(dy)}')
            d = {n: dy[i] for n, i in eq.idx.items()}
            if form == 'T':
                chk(k + ".phi'", d['phi'], pd, 0)
                chk(k + ".dphidt'", d['dphidt'], ph.d(2), mu * rate * amp)
                chk(k + "._N'", d['_N'], Hs, Hs * amp)
                if opt:
                    chk(k + ".eta'", d['eta'], mp.exp(-NN.c[0]), 0)
            else:
                chk(k + ".phi'", d['phi'], pN, 0)
                pNN = fl(ddN(ddN(ph, H), H).c[0])
                chk(k + ".dphidN'", d['dphidN'], pNN, amp * (mu / Hs) ** 2 * max(1, rate / Hs) ** 2 * 10)
                if opt[0]:
                    chk(k + ".t'", d['t'], 1 / Hs, amp / Hs)
                if opt[1]:
                    chk(k + ".eta'", d['eta'], fl(mp.exp(-NN.c[0])) / Hs, amp / Hs * fl(mp.exp(-NN.c[0])))
            chk(k + '.H2', eq.H2(x, y), Hs ** 2, Hs ** 2 * amp)
            chk(k + '.H', eq.H(x, y), Hs, Hs * amp)
            chk(k + '.w', eq.w(x, y), w, amp)
            chk(k + '.inflating', eq.inflating(x, y), infl, mu ** 2 * amp)
            chk(k + '.V', eq.V(x, y), v[0], 0)
            chk(k + '.dVdphi', eq.dVdphi(x, y), v[1], fl(v[0]))
            chk(k + '.d2Vdphi2', eq.d2Vdphi2(x, y), 2 * v[2], fl(v[0]))
            # arrays of states behave like one state at a time
            Y = np.stack([y, y, y], axis=1)
            X = np.full(3, x)
            ctx.true(f'{key}:{k}.array', np.allclose(eq.H2(X, Y), eq.H2(x, y), rtol=1e-12, atol=0)
                     and np.allclose(eq.inflating(X, Y), eq.inflating(x, y), rtol=1e-10, atol=1e-300)
                     and np.allclose(eq.w(X, Y), eq.w(x, y), rtol=1e-10, atol=1e-14), 'array of states differs from single state')
