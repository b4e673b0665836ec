"""C01: derivatives and slow-roll hierarchy of every potential against jet arithmetic."""
import itertools
from fractions import Fraction as F

import mpmath as mp
import numpy as np

from mc import jet as J, pots

PID, LEVEL = 'C01', 'exploration'
RULE = ("complete product of potential class x shape-parameter lattice x Lambda x field lattice, each with scalar and array "
        "input; plus the complete lattice of (eps1V..eps4V) values for the Hubble-flow expansions. Non-trivial: the "
        "reference value is finite and the method returned a number.")
ASSUMPTIONS = ["derivatives are compared at lattice points, in double precision, with a tolerance scaled by the local "
               "size of V/phi^k", "field values where the reference V is not smooth (e.g. phi=0 for odd powers) are excluded"]

TECHNIQUE = "bounded exhaustive exploration of the real code against a truncated-Taylor (jet) oracle"
NOTE = ("every class x shape parameter x Lambda x field lattice point x method x scalar/array is executed against "
        "derivatives obtained independently in 30-digit jet arithmetic; between lattice points nothing is claimed")

LAMBDAS = [1, 0.0032]


def cases(tier, seed):
    out = []
    for name, plist in pots.catalogue('thorough').items():
        for kw, ref in plist:
            out.append(dict(kind='pot', name=name, kw=kw, ref=ref))
    vals = [0.0, 0.01, -0.3, 0.2, 1.3] if tier == 'quick' else [0.0, 0.01, -0.3, 0.2, 1.3, -1.1, 0.77]
    for e1 in vals:
        out.append(dict(kind='flow', e1=abs(e1), vals=vals))
    return out


# --- Hubble-flow parameters as truncated power series in the potential slow-roll parameters --------------------------
# monomials: exponent tuples (a1..a5) for eps1V^a1 ... eps5V^a5
def pmul(p, q, n):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(i + j for i, j in zip(a, b))
            if sum(k) <= n:
                r[k] = r.get(k, 0) + x * y
    return r


def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
    return r


def D(p, n):
    """d/dN_V with D e_i = e_i e_{i+1}."""
    r = {}
    for a, x in p.items():
        for i in range(4):
            if a[i]:
                b = list(a)
                b[i + 1] += 1
                if sum(b) <= n:
                    r[tuple(b)] = r.get(tuple(b), 0) + x * a[i]
    return r


ONE = {(0,) * 5: F(1)}


def mono(i):
    return {tuple(1 if j == i else 0 for j in range(5)): F(1)}


def pinv(p, n):
    """1/p for p = 1 + small."""
    q = padd(p, ONE, -1)
    r, t = dict(ONE), dict(ONE)
    for _ in range(n):
        t = pmul(t, {k: -v for k, v in q.items()}, n)
        r = padd(r, t)
    return r


def plog1(p, n):
    """log(p) for p = 1 + small."""
    q = padd(p, ONE, -1)
    r, t = {}, dict(ONE)
    for k in range(1, n + 1):
        t = pmul(t, q, n)
        r = padd(r, {a: v * F((-1) ** (k + 1), k) for a, v in t.items()})
    return r


def flow_series(n=4):
    """eps_n (n=1..4) of the slow-roll attractor in terms of the eps_nV.

    V = 3 H^2 (1 - eps1/3) gives eps1V = eps1 (1 + eps2/(2(3-eps1)))^2 and d/dN = (1 + eps2/(2(3-eps1)))^-1 d/dN_V;
    iterate to a fixed point of truncated series.  Ratios eps_n/eps_nV = 1 + ... are carried.
    """
    e = [mono(i) for i in range(5)]
    R1 = dict(ONE)           # eps1 / eps1V
    eps2 = dict(e[1])
    for _ in range(2 * n):
        eps1 = pmul(e[0], R1, n)
        den = pinv(padd(ONE, {k: -v / 3 for k, v in eps1.items()}), n)      # 1/(1-eps1/3)
        B = padd(ONE, {k: v / 6 for k, v in pmul(eps2, den, n).items()})    # 1+eps2/(2(3-eps1))
        Bi = pinv(B, n)
        R1 = pmul(Bi, Bi, n)
        eps2 = pmul(Bi, padd(e[1], D(plog1(R1, n), n)), n)
    out = [pmul(e[0], R1, n)]
    cur = out[0]
    ratio = R1
    for i in range(1, 4):
        nxt = pmul(Bi, padd(e[i], D(plog1(ratio, n), n)), n)                # dln eps_i/dN
        out.append(nxt)
        # ratio nxt / e[i]: not a pure power series in general, so divide term by term where e[i] divides
        if i < 3:
            ratio = {}
            for k, v in nxt.items():
                if v == 0:
                    continue
                kk = list(k)
                kk[i] -= 1
                if kk[i] < 0:
                    return out, (i + 1)
                ratio[tuple(kk)] = v
    return out, None


def trunc(p, n):
    return {k: v for k, v in p.items() if sum(k) <= n and v != 0}


def peval(p, e):
    s = mp.mpf(0)
    for k, v in p.items():
        t = mp.mpf(v.numerator) / v.denominator
        for x, a in zip(e, k):
            if a:
                t *= mp.mpf(x) ** a
        s += t
    return s


_series = {}


def hubble_flow_reference():
    """Truncations used by the library: eps1, eps2, eps3 to third order, eps4 to second order; eps5V = 0."""
    if not _series:
        n = 3
        e = [mono(i) for i in range(5)]
        s, _ = flow_series(n + 1)
        eps1, eps2 = s[0], s[1]
        # eps3 = dln eps2/dN: eps2 = e2 (1 + r2) with r2 a power series (every term of eps2 contains e2)
        B = None
        eps1n = eps1
        den = pinv(padd(ONE, {k: -v / 3 for k, v in eps1n.items()}), n + 1)
        B = padd(ONE, {k: v / 6 for k, v in pmul(eps2, den, n + 1).items()})
        Bi = pinv(B, n + 1)
        r2 = {}
        for k, v in eps2.items():
            if v == 0:
                continue
            kk = list(k)
            kk[1] -= 1
            assert kk[1] >= 0
            r2[tuple(kk)] = v
        eps3 = pmul(Bi, padd(e[2], D(plog1(r2, n), n + 1)), n + 1)
        # eps4 = dln eps3/dN to second order.  eps3 = e3 + (quadratic) whose D-derivative is needed over e3:
        # dln eps3/dN_V = D(eps3)/eps3; all quadratic terms of eps3 contain e3 (checked), so divide.
        q = trunc(eps3, 2)
        r3 = {}
        for k, v in q.items():
            kk = list(k)
            kk[2] -= 1
            assert kk[2] >= 0, q
            r3[tuple(kk)] = v
        eps4 = pmul(Bi, padd(e[3], D(plog1(r3, 1), 2)), 2)
        _series.update(e1=trunc(eps1, 3), e2=trunc(eps2, 3), e3=trunc(eps3, 3), e4=trunc(eps4, 2))
    return _series


def make_stub(pp, e):
    class Stub(pp.InflationaryPotential):
        tag, name, tex, perturbation_ic = 'stb', 'Stub', '', (1, 0, 0, 1)

        def __init__(self, **kw):
            super().__init__(**kw)

        def V(self, phi):
            return 1.

        dV = d2V = d3V = d4V = inv_V = sr_phi2N = sr_N2phi = V
        phi_end = 1.

        def get_epsilon_1V(self, phi):
            return e[0]

        def get_epsilon_2V(self, phi):
            return e[1]

        def get_epsilon_3V(self, phi):
            return e[2]

        def get_epsilon_4V(self, phi):
            return e[3]
    return Stub()


def check_flow(ctx, key, pot, phi, e):
    ref = hubble_flow_reference()
    for n in range(1, 5):
        want = peval(ref['e%d' % n], list(e[:4]) + [0])
        scale = max(abs(float(x)) for x in e[:4]) + 1e-300
        got = getattr(pot, 'get_epsilon_%d' % n)(phi)
        ctx.close(f'{key}:get_epsilon_{n}', got, float(want), 1e-9, 1e-10 * max(scale, scale ** 3),
                  f'get_epsilon_{n}({phi})')


def containers(ctx, key, f, xs, want, tol):
    """The same numbers whatever shape, order, length or memory layout they are handed over in."""
    n = len(xs)
    i = np.arange(n)
    ways = dict(reversed=i[::-1], column=i[:, None], square=np.stack([i, i]), one=i[:1], last=i[-1:], long=np.tile(i, 120),
                fortran=np.asfortranarray(np.stack([i, i[::-1]])), constant=np.full(7, 1), empty=i[:0], zerod=np.array(n // 2), strided=i[::2])
    for w, j in ways.items():
        x, y, t = xs[j], want[j], tol[j]
        if w == 'zerod':
            x = np.array(x)
        if w in ('strided', 'reversed'):
            x = xs[::2] if w == 'strided' else xs[::-1]
        try:
            got = np.asarray(f(x), dtype=float)
            if got.shape != np.shape(x):
                got = np.broadcast_to(got, np.shape(x))
        except Exception as e:  # noqa
            ctx.true(f'{key}:{w}', False, f'{w}: {e!r}')
            continue
        ok = np.all((np.abs(got - y) <= 1e-12 * np.abs(y) + t) | (got == y) | (np.isnan(got) & np.isnan(y)))
        ctx.true(f'{key}:{w}', ok, f'{w}: differs from the values at the same fields one by one')


def hierarchy(v):
    if not v.c[0]:
        return [np.nan]
    r = v.deriv() / v.trunc(5)                    # V'/V
    e = [r * r / 2]
    for n in range(3):
        if not e[-1].c[0]:
            return [np.nan]
        e.append(-(r.trunc(e[-1].n - 1)) * (e[-1].deriv() / e[-1].trunc(e[-1].n - 1)))
    return [float(q.c[0]) for q in e]


def conditioning(v, es, floor):
    """How far the hierarchy moves when the values of V, .., d4V are off by a rounding error of their largest terms."""
    out = np.zeros(4)
    for k in range(5):
        c = list(v.c)
        c[k] += mp.mpf(floor[k]) / mp.factorial(k)
        p = hierarchy(J.Jet(c))
        out += np.abs(np.array(p) - np.array(es)) if len(p) == 4 else np.inf
    return out


NAMES = ['V', 'dV', 'd2V', 'd3V', 'd4V']


def special(ctx, tag, name, kw, ref, Vref, cls):
    """The extremum itself where V is smooth there, and whole-number fields."""
    pot = cls(Lambda=1, **kw)
    at = dict(v_doublewell=[ref.get('phi0')], v_natural=[0., ref.get('phi0')]).get(Vref.__name__, [0.])
    even = {pots.v_monomial: ref.get('p', 2), pots.v_tmodel: 2 * ref.get('p', 1), pots.v_radion: ref.get('p', 2)}.get(Vref, 2)
    if Vref in (pots.v_sgd, pots.v_sts) or even % 2 or (Vref is pots.v_doublewell and not float(ref['p']).is_integer()):
        at = []
    for x in at:
        j = Vref(J.Jet.var(x, 6), **ref)
        fl = pots.size(name, ref, 1.)
        for k, m in enumerate(NAMES):
            for w, y in (('scalar', float(x)), ('array', np.array([x, x], dtype=float))):
                key = f'{tag}:extremum:{m}({w})'
                try:
                    with np.errstate(all='ignore'):
                        got = np.unique(getattr(pot, m)(y))
                except ZeroDivisionError:
                    got = np.array([np.nan])
                if not np.all(np.isfinite(got)):
                    ctx.bad(key + ':undefined', f'{m}({x}) is {got}, V is smooth there with {m}={float(j.d(k))!r}')
                else:
                    ctx.close(key, got, [float(j.d(k))] * len(got), 1e-9, 1e-12 * fl[k], m)
        ctx.outcome('extremum')
    for m in NAMES + ['get_epsilon_%dV' % n for n in range(1, 5)] + ['get_epsilon_%d' % n for n in range(1, 5)]:
        for x in (3, np.int64(1), np.int64(3), np.array([1, 3])):
            if np.any(x == ref.get('phi0')):
                continue
            f = getattr(pot, m)
            want = f(np.array([1., 3.])) if isinstance(x, np.ndarray) else f(float(x))
            key = f'{tag}:{m}({type(x).__name__} {x})'
            try:
                ctx.close(key, f(x), want, 1e-12, 1e-300, 'whole number instead of float')
            except Exception as e:  # noqa
                ctx.bad(key, f'{e!r} for a whole-number field')


def run(case, ctx):
    import primpy.potentials as pp
    if case['kind'] == 'flow':
        for e in itertools.product(case['vals'], repeat=3):
            e = (case['e1'],) + e
            check_flow(ctx, f'flow:{e}', make_stub(pp, e), 1., e)
        return
    name, kw, ref = case['name'], case['kw'], case['ref']
    cls = getattr(pp, name)
    Vref = pots.reference(name)
    xs = pots.fields(name, ref, ctx.tier) + pots.extremes(name, ref)
    extreme = len(pots.fields(name, ref, ctx.tier))
    tag = f"{name}({','.join(f'{k}={v:.6g}' for k, v in kw.items())})"
    feature = 'phi_feature' in kw
    jets = [Vref(J.Jet.var(x, 6), **ref) for x in xs]
    names = ['V', 'dV', 'd2V', 'd3V', 'd4V']
    L = [abs(x) for x in xs]
    if feature:
        L = [min(l, kw['b_feature']) for l in L]
    if 'phi0' in ref:
        L = [min(l, ref['phi0'], abs(ref['phi0'] - l) + 1e-9) for l in L]
    if name == 'TmodelPotential':
        L = [min(l, float(mp.sqrt(6 * ref['alpha']))) for l in L]
    flr = [[1e-14 * c for c in pots.size(name, ref, x)] for x in xs]
    for Lam in LAMBDAS:
        pot = cls(Lambda=Lam, **kw)
        for k, m in enumerate(names):
            want = [float(j.d(k) * mp.mpf(Lam) ** 4) for j in jets]
            f = getattr(pot, m)
            arr = np.array(xs)
            before = arr.copy()
            got_arr = f(arr)
            ctx.true(f'{tag}:{m}:input-modified', np.array_equal(arr, before), f'{m} modified its input array')
            got_arr = np.broadcast_to(got_arr, arr.shape)
            for i, x in enumerate(xs):
                # tolerance relative to the size of the terms that cancel: V / L^k
                atol = 1e-11 * float(abs(jets[i].c[0]) + 1e-12) * Lam ** 4 / L[i] ** k
                atol += flr[i][k] * Lam ** 4 if i >= extreme else 0
                got = f(x)
                ctx.close(f'{tag}:Lambda={Lam}:{m}({x:.6g})', got, want[i], 1e-9, atol, m)
                ctx.close(f'{tag}:Lambda={Lam}:{m}(array)[{i}]', got_arr[i], got, 1e-12, flr[i][k] * Lam ** 4 if i >= extreme else 1e-300, m + ' array vs scalar')
            containers(ctx, f'{tag}:Lambda={Lam}:{m}', f, arr, got_arr, np.array([max(1e-300, fl[k] * Lam ** 4) for fl in flr]))
        # slow-roll hierarchy
        eps_noise = np.full((len(xs), 4), np.inf)
        for i, x in enumerate(xs):
            es = hierarchy(jets[i])
            if not all(np.isfinite(es)):
                continue
            scale = max(abs(t) for t in es)
            noise = np.zeros(4) if i < extreme else conditioning(jets[i], es, flr[i])
            eps_noise[i] = noise
            for n in range(4):
                m = 'get_epsilon_%dV' % (n + 1)
                got = getattr(pot, m)(x)
                if noise[n] < 1e-3 * scale:
                    ctx.close(f'{tag}:Lambda={Lam}:{m}({x:.6g})', got, es[n], 1e-8, 1e-11 * scale + noise[n], m)
            if not feature and i < extreme:
                check_flow(ctx, f'{tag}:Lambda={Lam}:phi={x:.6g}', pot, x, es)
        for n in range(4):
            m = 'get_epsilon_%dV' % (n + 1)
            arr = np.array(xs)
            got = getattr(pot, m)(arr)
            ctx.true(f'{tag}:{m}:input-modified', np.array_equal(arr, np.array(xs)), f'{m} modified its input array')
            one = [getattr(pot, m)(x) for x in xs]
            ctx.close(f'{tag}:Lambda={Lam}:{m}:array', got[:extreme], one[:extreme], 1e-12, 0, m + ' array vs scalar')
            for i in range(extreme, len(xs)):
                ctx.true(f'{tag}:Lambda={Lam}:{m}(array)[{i}]', not eps_noise[i][n] < np.inf or
                         abs(got[i] - one[i]) <= 1e-12 * abs(one[i]) + eps_noise[i][n], f'{got[i]!r} in an array, {one[i]!r} alone')
            containers(ctx, f'{tag}:Lambda={Lam}:{m}', getattr(pot, m), arr, got, eps_noise[:, n])
    special(ctx, tag, name, kw, ref, Vref, cls)
    ctx.sample = dict(fields=xs[:4], V=[float(j.c[0]) for j in jets[:4]])
