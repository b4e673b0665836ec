"""Reference slow-roll spectra, and exact spectra from the mode equation they must converge to.

The expansions are functions of the Hubble-flow parameters e1..e4 (e_{n+1} = dln e_n/dN, e_1 = -dlnH/dN) where k=aH.
`exact` integrates the mode equation for a prescribed e1(N); prepare() of C11 shows that the expansions below converge to it
with the order they claim, which is what makes them an oracle rather than a copy.
"""
import math

import numpy as np
from scipy.integrate import solve_ivp
from scipy.special import zeta

PI2 = np.pi ** 2
Z3 = float(zeta(3))
G = 0.57721566490153286
AL = 2 - np.log(2) - G


def deltas(e1, e2, e3, e4):
    """d^n+1 phi/dt^n+1 / (H^n dphi/dt) for n=1,2,3 from the flow parameters (flat universe)."""
    d1 = e2 / 2 - e1
    D1 = e2 * e3 / 2 - e1 * e2                                   # d(d1)/dN
    d2 = -e1 * d1 + d1 ** 2 + D1
    D2 = -e1 * e2 * d1 - e1 * D1 + 2 * d1 * D1 + (e2 * e3 ** 2 + e2 * e3 * e4) / 2 - e1 * e2 ** 2 - e1 * e2 * e3
    d3 = -2 * e1 * d2 + d1 * d2 + D2
    return d1, d2, d3


def cgs_s(order, e1, e2, d1, d2, d3):
    a = AL - e1 - e1 ** 2 / 2 - e1 * e2
    o = [1.]
    o.append((4 * a - 2) * e1 + 2 * a * d1 + (PI2 / 12 - a ** 2) * d2 + (a ** 3 / 3 - PI2 / 12 * a + 4 / 3 - 2 / 3 * Z3) * d3)
    o.append((4 * a ** 2 - 19 + 7 * PI2 / 3) * e1 ** 2 + (3 * a ** 2 + 2 * a - 20 + 29 * PI2 / 12) * e1 * d1
             + (3 * a ** 2 - 4 + 5 * PI2 / 12) * d1 ** 2
             + (-5 / 3 * a ** 3 - 2 * a ** 2 + 20 * a - 9 / 4 * PI2 * a + 16 / 3 + PI2 / 6 - 14 / 3 * Z3) * e1 * d2
             + (-3 * a ** 3 + 8 * a - 7 / 12 * PI2 * a - 4 + 2 * Z3) * d1 * d2)
    o.append((4 * a ** 2 + 8 * a + 16 + 5 * PI2 - 48 * Z3) * e1 ** 3
             + (-5 / 3 * a ** 3 + 4 * a ** 2 + 32 * a - 9 / 4 * PI2 * a + 88 / 3 + 23 / 3 * PI2 - 230 / 3 * Z3) * e1 ** 2 * d1
             + (3 * a ** 3 + 4 * a ** 2 - 24 * a + 13 / 4 * PI2 * a + 16 + 7 / 3 * PI2 - 30 * Z3) * e1 * d1 ** 2
             + (4 * a ** 3 - 16 * a + 5 / 3 * PI2 * a + 8 - 6 * Z3) * d1 ** 3)
    return sum(o[:order + 1])


def cgs_t(order, e1, e2, E2, E3):
    """E2, E3: de1/dt/H and d2e1/dt2/H^2."""
    a = AL - e1 - e1 ** 2 / 2 - e1 * e2
    o = [1.]
    o.append(2 * (a - 1) * e1 + (-a ** 2 + 2 * a - 2 + PI2 / 12) * E2
             + (a ** 3 / 3 - a ** 2 + (2 - PI2 / 12) * a + PI2 / 12 - 2 / 3 - 2 / 3 * Z3) * E3)
    o.append((2 * a ** 2 - 2 * a - 3 + PI2 / 2) * e1 ** 2
             + (-5 / 3 * a ** 3 + 2 * a ** 2 + (8 - 11 / 12 * PI2) * a + 7 / 6 * PI2 - 26 / 3 - 2 / 3 * Z3) * e1 * E2)
    o.append((4 / 3 * a ** 3 - 8 * a + PI2 * a + 16 / 3 - 14 / 3 * Z3) * e1 ** 3)
    return sum(o[:order + 1])


def second_s(e1, e2, e3):
    """ln of the scalar correction through second order, k=aH."""
    C = -AL
    return (-2 * (C + 1) * e1 - C * e2 + (-2 * C + PI2 / 2 - 7) * e1 ** 2 + (-C ** 2 - 3 * C + 7 * PI2 / 12 - 7) * e1 * e2
            + (PI2 / 8 - 1) * e2 ** 2 + (PI2 / 24 - C ** 2 / 2) * e2 * e3)


def second_t(e1, e2, e3):
    C = -AL
    return (-2 * (C + 1) * e1 + (-2 * C + PI2 / 2 - 7) * e1 ** 2 + (-C ** 2 - 2 * C + PI2 / 12 - 2) * e1 * e2)


def ste_s(e1, e2, e3):
    C = -AL
    return (1 - 2 * (C + 1) * e1 - C * e2 + (2 * C ** 2 + 2 * C + PI2 / 2 - 5) * e1 ** 2 + (C ** 2 / 2 + PI2 / 8 - 1) * e2 ** 2
            + (C ** 2 - C + 7 / 12 * PI2 - 7) * e1 * e2 + (PI2 / 24 - C ** 2 / 2) * e2 * e3)


def ste_t(e1, e2, e3):
    C = -AL
    return (1 - 2 * (C + 1) * e1 + (2 * C ** 2 + 2 * C + PI2 / 2 - 5) * e1 ** 2
            + (-C ** 2 - 2 * C + PI2 / 12 - 2) * e1 * e2)


def llms_s(e1, e2, e3, x):
    """ln P/P0 at ln(k/k*)=x from the flow at the pivot."""
    C = -AL
    n = -2 * e1 - e2 - 2 * e1 ** 2 - (2 * C + 3) * e1 * e2 - C * e2 * e3
    return second_s(e1, e2, e3) + n * x + (-2 * e1 * e2 - e2 * e3) / 2 * x ** 2


def llms_t(e1, e2, e3, x):
    C = -AL
    n = -2 * e1 - 2 * e1 ** 2 - 2 * (C + 1) * e1 * e2
    return second_t(e1, e2, e3) + n * x - 2 * e1 * e2 / 2 * x ** 2


def arbds(order, e1, e2, e3, e4, x, kind):
    """P/P0: third-order expansion about -k*eta=1; x = ln(k/k*) for k*=aH is shifted by ln(-k*eta)."""
    x = x + e1 + e1 ** 2 / 2 + e1 * e2
    out = 0.
    for n, p in enumerate(_coef(kind)):
        for (i, j, k, l), v in p.items():
            if i + j + k + l <= order:
                out = out + v * e1 ** i * e2 ** j * e3 ** k * e4 ** l * x ** n
    return out


def _poly(a, kind):
    """Third-order coefficient c0 as {(i1,i2,i3,i4): coefficient}."""
    Z, y = 7 / 3 * Z3, Z3 / 3
    if kind == 's':
        A = -(-16 + 24 * a - 4 * a ** 3 - 3 * a * PI2 + 6 * Z) / 24
        E = (16 + 4 * a ** 3 - a * PI2 - 24 * y) / 24
        return {(0, 0, 0, 0): 1., (1, 0, 0, 0): 2 * (a - 1), (0, 1, 0, 0): a,
                (2, 0, 0, 0): -3 - 2 * a + 2 * a ** 2 + PI2 / 2, (1, 1, 0, 0): -6 + a + a ** 2 + 7 * PI2 / 12,
                (0, 2, 0, 0): a ** 2 / 2 - 1 + PI2 / 8, (0, 1, 1, 0): PI2 / 24 - a ** 2 / 2,
                (3, 0, 0, 0): 8 * A, (0, 3, 0, 0): A,
                (2, 1, 0, 0): (-72 * a + 36 * a ** 2 + 13 * PI2 + 8 * a * PI2 - 36 * Z) / 12,
                (1, 2, 0, 0): -(16 + 24 * a - 12 * a ** 2 - 8 * a ** 3 - 15 * PI2 - 6 * a * PI2 + 100 * Z3) / 24,
                (0, 1, 2, 0): E, (0, 1, 1, 1): E, (0, 2, 1, 0): (48 * a - 12 * a ** 3 - 5 * a * PI2) / 24,
                (1, 1, 1, 0): (-8 + 72 * a - 12 * a ** 2 - 8 * a ** 3 + PI2 - 6 * a * PI2 - 24 * y) / 12}
    B = -(8 - 24 * a + 12 * a ** 2 - 4 * a ** 3 - PI2 + a * PI2 + 24 * y) / 12
    return {(0, 0, 0, 0): 1., (1, 0, 0, 0): 2 * (a - 1), (2, 0, 0, 0): -3 - 2 * a + 2 * a ** 2 + PI2 / 2,
            (1, 1, 0, 0): -2 + 2 * a - a ** 2 + PI2 / 12,
            (3, 0, 0, 0): -(-16 + 24 * a - 4 * a ** 3 - 3 * a * PI2 + 6 * Z) / 3,
            (2, 1, 0, 0): (-96 + 72 * a + 36 * a ** 2 - 24 * a ** 3 + 13 * PI2 - 10 * a * PI2) / 12,
            (1, 2, 0, 0): B, (1, 1, 1, 0): B}


def _mul(p, q):
    r = {}
    for i, a in p.items():
        for j, b in q.items():
            k = tuple(x + y for x, y in zip(i, j))
            if sum(k) <= 3:
                r[k] = r.get(k, 0.) + a * b
    return r


def _add(p, q):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0.) + v
    return r


def _ddN(p):
    r = {}
    for (i, j, k, l), v in p.items():
        for n, t in ((i, (i, j + 1, k, l)), (j, (i, j, k + 1, l)), (k, (i, j, k, l + 1))):
            if n and sum(t) <= 3:
                r[t] = r.get(t, 0.) + n * v
    return r


_cache = {}


def _coef(kind):
    """c_0..c_3 as polynomials, from c_0 and independence of the pivot."""
    if kind not in _cache:
        f = {(1, 0, 0, 0): -2.}
        if kind == 's':
            f[0, 1, 0, 0] = -1.
        inv = {(0, 0, 0, 0): 1., (1, 0, 0, 0): 1., (2, 0, 0, 0): 1., (1, 1, 0, 0): 1., (3, 0, 0, 0): 1., (2, 1, 0, 0): 2.}
        c = [_poly(AL, kind)]
        for n in range(3):
            p = _mul(_add(_ddN(c[n]), _mul(f, c[n])), inv)
            c.append({k: v / (n + 1) for k, v in p.items()})
        _cache[kind] = c
    return _cache[kind]


class NoVacuum(Exception):
    pass


def exact(y0, bg, flow, scalar, N0=-7.5, N1=14.):
    """P/P0 at the k crossing at N=0, P0 = H^2/(8 pi^2 e1) or 2 H^2/pi^2 there, from the mode equation.

    The background has state y (y0 at N=0), dy/dN=bg(N, y), and (e1, e2)=flow(N, y).
    """
    y0 = [float(v) for v in y0]

    def back(N, y):
        e1, e2 = flow(N, y[2:])
        return [1 - e1, 1 + (e2 / 2 if scalar else 0), *bg(N, y[2:])]
    r = solve_ivp(back, (0, N0), [0., 0., *y0], rtol=1e-13, atol=1e-14, method='DOP853')
    l0, z0 = r.y[:2, -1]
    ys = r.y[2:, -1]
    h = 1e-4

    def at(dN):
        """State near the start, by a Runge-Kutta step."""
        if not dN:
            return r.y[:, -1]
        y = r.y[:, -1]
        f = lambda N, v: np.array(back(N, v))
        k1 = f(N0, y)
        k2 = f(N0 + dN / 2, y + dN / 2 * k1)
        k3 = f(N0 + dN / 2, y + dN / 2 * k2)
        return y + dN / 6 * (k1 + 2 * k2 + 2 * k3 + f(N0 + dN, y + dN * k3))

    def w(dN):
        y = at(dN)
        a, b = flow(N0 + dN, y[2:])
        q = 2 - a
        if scalar:
            d = (flow(N0 + h, at(h)[2:])[1] - flow(N0 - h, at(-h)[2:])[1]) / (2 * h)
            q += (3 * b - a * b) / 2 + b * b / 4 + d / 2
        if math.exp(-2 * y[0]) < 100 * abs(q):
            raise NoVacuum
        return math.sqrt(math.exp(-2 * y[0]) - q), y[0]
    lw = lambda dN: (lambda v: math.log(v[0]) + v[1])(w(dN))
    dlw = (lw(h) - lw(-h)) / (2 * h)
    w0 = w(0.)[0]
    e1, e2 = flow(N0, ys)
    R = 1 / math.sqrt(2 * w0 * math.exp(l0)) / math.exp(z0)
    Rp = (-1j * w0 - dlw / 2 - (1 + (e2 / 2 if scalar else 0))) * R

    def f(N, y):
        e1, e2 = flow(N, y[5:])
        c = 3 - e1 + (e2 if scalar else 0.)
        x2 = math.exp(-2 * y[4])
        return [y[2], y[3], -c * y[2] - x2 * y[0], -c * y[3] - x2 * y[1], 1 - e1, *bg(N, y[5:])]
    s = solve_ivp(f, (N0, N1), [R.real, R.imag, Rp.real, Rp.imag, l0, *ys], rtol=2e-13, atol=1e-16, method='DOP853')
    return 2 * (s.y[0, -1] ** 2 + s.y[1, -1] ** 2)


def exact_flow(e1, e2, e3, e4, scalar):
    """Same for ln e1 a cubic in N with the given flow parameters at N=0."""
    c = [math.log(e1), e2, e2 * e3 / 2, (e2 * e3 ** 2 + e2 * e3 * e4) / 6]
    return exact([], lambda N, y: [], lambda N, y: (math.exp(c[0] + N * (c[1] + N * (c[2] + N * c[3]))),
                                                    c[1] + N * (2 * c[2] + N * 3 * c[3])), scalar)
