"""Truncated Taylor series ("jets") over mpmath floats: exact derivatives of reference formulas.

A jet holds c[0..n] with f(x0+e) = sum c[k] e^k.  Nothing here is shared with primpy.
"""
import mpmath as mp

mp.mp.dps = 40


class Jet:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = list(c)

    @classmethod
    def var(cls, x, n):
        return cls([mp.mpf(x), mp.mpf(1)] + [mp.mpf(0)] * (n - 1))

    @classmethod
    def const(cls, x, n):
        return cls([mp.mpf(x)] + [mp.mpf(0)] * n)

    @property
    def n(self):
        return len(self.c) - 1

    def _lift(self, o):
        return o if isinstance(o, Jet) else Jet.const(o, self.n)

    def d(self, k):
        """k-th derivative."""
        return self.c[k] * mp.factorial(k)

    def deriv(self):
        """Jet of the derivative (one order shorter)."""
        return Jet([(k + 1) * self.c[k + 1] for k in range(self.n)])

    def trunc(self, n):
        return Jet(self.c[:n + 1])

    def __neg__(self):
        return Jet([-a for a in self.c])

    def __add__(self, o):
        o = self._lift(o)
        return Jet([a + b for a, b in zip(self.c, o.c)])
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-self._lift(o))

    def __rsub__(self, o):
        return self._lift(o) - self

    def __mul__(self, o):
        if not isinstance(o, Jet):
            return Jet([a * o for a in self.c])
        n = min(self.n, o.n)
        return Jet([mp.fsum(self.c[i] * o.c[k - i] for i in range(k + 1)) for k in range(n + 1)])
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, Jet):
            return Jet([a / o for a in self.c])
        n = min(self.n, o.n)
        q = []
        for k in range(n + 1):
            q.append((self.c[k] - mp.fsum(q[i] * o.c[k - i] for i in range(k))) / o.c[0])
        return Jet(q)

    def __rtruediv__(self, o):
        return self._lift(o) / self

    def __pow__(self, p):
        """Real power; for integer p also at zero or negative argument."""
        if p == int(p) and p >= 0:
            r = Jet.const(1, self.n)
            for _ in range(int(p)):
                r = r * self
            return r
        a, n = self.c, self.n
        p = mp.mpf(p)
        r = [mp.power(a[0], p)]
        for k in range(1, n + 1):
            r.append(mp.fsum((p * i - (k - i)) * a[i] * r[k - i] for i in range(1, k + 1)) / (k * a[0]))
        return Jet(r)


def exp(x):
    if not isinstance(x, Jet):
        return mp.exp(x)
    r = [mp.exp(x.c[0])]
    for k in range(1, x.n + 1):
        r.append(mp.fsum(i * x.c[i] * r[k - i] for i in range(1, k + 1)) / k)
    return Jet(r)


def log(x):
    if not isinstance(x, Jet):
        return mp.log(x)
    d = (x.deriv() / x.trunc(x.n - 1)) if x.n else None
    return Jet([mp.log(x.c[0])] + ([d.c[k] / (k + 1) for k in range(x.n)] if d else []))


def sincos(x):
    if not isinstance(x, Jet):
        return mp.sin(x), mp.cos(x)
    s, c = [mp.sin(x.c[0])], [mp.cos(x.c[0])]
    for k in range(1, x.n + 1):
        s.append(mp.fsum(i * x.c[i] * c[k - i] for i in range(1, k + 1)) / k)
        c.append(-mp.fsum(i * x.c[i] * s[k - i] for i in range(1, k + 1)) / k)
    return Jet(s), Jet(c)


def tanh(x):
    if not isinstance(x, Jet):
        return mp.tanh(x)
    e = exp(2 * x)
    return (e - 1) / (e + 1)


def sqrt(x):
    return mp.sqrt(x) if not isinstance(x, Jet) else x ** mp.mpf('0.5')
