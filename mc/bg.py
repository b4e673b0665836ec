"""Background helpers shared by checks: arbitrary initial states and independent reference diagnostics."""
import numpy as np


def raw_ic(eq, state, x_ini, x_end):
    """An InitialConditions object starting from any state given as {variable: value} (public extension point)."""
    from primpy.initialconditions import InitialConditions

    class RawIC(InitialConditions):
        def __init__(self):
            super().__init__(equations=eq)
            self.x_ini, self.x_end = x_ini, x_end

        def __call__(self, y0, **kw):
            for n, i in self.equations.idx.items():
                y0[i] = state[n]
    return RawIC()


# name -> (potential class, kwargs, K, N_i, phi_i, dphi/dt in units of sqrt(V), e-folds to integrate)
CONFIGS = {
    # kinetic start -> inflation -> oscillations with repeated crossings
    'kinetic-flat': ('QuadraticPotential', {}, 0, 2., 5., -5., 14.),
    'kinetic-closed': ('StarobinskyPotential', {}, 1, 4., 3.2, -1.5, 7.),
    'kinetic-open': ('QuadraticPotential', {}, -1, 0.5, 5., -5., 14.),
    'slowroll-flat': ('StarobinskyPotential', {}, 0, 2., 3., -0.05, 8.),
    'slowroll-closed': ('QuadraticPotential', {}, 1, 1., 4., -0.2, 9.),
    'slowroll-open': ('QuarticPotential', {}, -1, 0., 5., -0.2, 8.),
    # never inflating: after the end, falling
    'ended-flat': ('QuadraticPotential', {}, 0, 10., 0.7, -1.4, 0.25),
    # long inflation, still inflating at the end of the run
    'ongoing-flat': ('QuadraticPotential', {}, 0, 5., 12., -0.1, 12.),
    'ongoing-open': ('StarobinskyPotential', {}, -1, 1., 6., -1.7, 9.),
    # collapsing closed universe (only in cosmic time)
    'collapse-closed': ('QuadraticPotential', {}, 1, 0.6, 0.8, 1.5, 9.),
}


def build(cfg, form, opts=(), Lambda=1):
    """(equations, state, x_ini, x_end)."""
    import primpy.potentials as pp
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    cls, kw, K, N_i, phi_i, u, dN = CONFIGS[cfg]
    pot = getattr(pp, cls)(Lambda=Lambda, **kw)
    V = float(pot.V(phi_i))
    pd = u * np.sqrt(V)
    H2 = (pd ** 2 / 2 + V) / 3 - K * np.exp(-2 * N_i)
    H = np.sqrt(H2)
    if form == 'T':
        eq = InflationEquationsT(K, pot, track_eta='eta' in opts)
        x0 = 3.
        Hend = np.sqrt(V) / 3
        x1 = x0 + dN / H * TSTRETCH.get(cfg, 1.)
    else:
        eq = InflationEquationsN(K, pot, track_time='t' in opts, track_eta='eta' in opts)
        x0, x1 = N_i, N_i + NLEN.get(cfg, dN)
    state = {'phi': phi_i, 'dphidt': pd, 'dphidN': pd / H, '_N': N_i, 't': 3., 'eta': 2.}
    return eq, state, x0, x1


# cosmic-time length relative to (e-folds)/(initial H)
TSTRETCH = {'kinetic-flat': 6., 'kinetic-closed': 3., 'kinetic-open': 6., 'slowroll-flat': 3., 'slowroll-closed': 4.,
            'slowroll-open': 6., 'ended-flat': 1., 'ongoing-flat': 1.2, 'ongoing-open': 1.5, 'collapse-closed': 1.}


class Diag:
    """Reference diagnostics from a packed state, written from the equations (not from primpy's methods)."""

    def __init__(self, eq, form, K, pot):
        self.i = dict(eq.idx)
        self.form, self.K, self.pot = form, K, pot

    def get(self, name, x, y):
        y = np.asarray(y)
        if name in self.i:
            return y[self.i[name]]
        if name == ('t' if self.form == 'T' else '_N'):
            return x
        raise KeyError(name)

    def N(self, x, y):
        return self.get('_N', x, y)

    def V(self, x, y):
        return self.pot.V(self.get('phi', x, y))

    def H2(self, x, y):
        k = self.K * np.exp(-2 * self.N(x, y))
        if self.form == 'T':
            return (self.get('dphidt', x, y) ** 2 / 2 + self.V(x, y)) / 3 - k
        return (self.V(x, y) / 3 - k) / (1 - self.get('dphidN', x, y) ** 2 / 6)

    def pd2(self, x, y):
        if self.form == 'T':
            return self.get('dphidt', x, y) ** 2
        return self.H2(x, y) * self.get('dphidN', x, y) ** 2

    def inflating(self, x, y):
        return self.V(x, y) - self.pd2(x, y)

    def w(self, x, y):
        a, b = self.pd2(x, y) / 2, self.V(x, y)
        return (a - b) / (a + b)

    def lnaH(self, x, y):
        return self.N(x, y) + np.log(np.abs(self.H2(x, y))) / 2

# e-folds to integrate in the e-fold formulation, which is singular in the oscillating phase
NLEN = {'kinetic-flat': 3.7, 'kinetic-open': 3.7, 'kinetic-closed': 4.4, 'slowroll-flat': 7.1, 'slowroll-closed': 4.6,
        'slowroll-open': 3.6, 'ended-flat': 0.15}
FORMS = [(c, f) for c in CONFIGS for f in 'TN' if (c, f) != ('collapse-closed', 'N')]
