"""C07: slow-roll and inflation-start initial conditions: accept/reject table and defining equations."""
import itertools
import math

import mpmath as mp
import numpy as np

from mc import jet as J, pots

PID, LEVEL = 'C07', 'exploration'
TECHNIQUE = "exhaustive enumeration of initial-condition arguments on the real code against an accept/reject table and closed equations"
NOTE = ("every combination of IC class, K, potential, phi_i, N_i or Omega_Ki (including impossible ones), formulation, tracked "
        "variables and given/missing t_i and eta_i on the lattice; reference in 40-digit arithmetic")
RULE = ("complete product of the lists above; non-trivial: the verdict was compared with the table and, if accepted, every entry "
        "of the initial state, x_ini, x_end and attributes were compared")
ASSUMPTIONS = ["the inflation-start condition rolls towards smaller phi whatever the sign of phi (the code's sign convention)"]


def cases(tier, seed):
    out = []
    for n, pl in pots.catalogue(tier).items():
        for kw, ref in (pl if tier == 'thorough' else [pl[0], pl[-1]] if len(pl) > 1 else pl):
            for K in (-1, 0, 1):
                out.append(dict(name=n, kw=kw, ref=ref, K=K))
    return out


def run(case, ctx):
    import primpy.potentials as pp
    from primpy.initialconditions import SlowRollIC, InflationStartIC
    from primpy.exceptionhandling import InflationStartError
    from primpy.time.inflation import InflationEquationsT as T
    from primpy.efolds.inflation import InflationEquationsN as NE
    from primpy.solver import solve
    name, kw, ref, K = case['name'], case['kw'], case['ref'], case['K']
    Vref = pots.reference(name)
    thorough = ctx.tier == 'thorough'
    base = f"{name}({','.join(f'{k}={v:.6g}' for k, v in kw.items())}):K={K}"
    forms = [('T', dict(track_eta=e)) for e in (False, True)] + \
            [('N', dict(track_time=t, track_eta=e)) for t in (False, True) for e in (False, True)]
    for Lam in [1, 0.003]:
        pot = getattr(pp, name)(Lambda=Lam, **kw)
        phis = [x for x in pots.fields(name, ref, 'quick') if 0 < abs(x) < 25]
        up, down = [x for x in phis if x > 0], [x for x in phis if x < 0]
        phis = phis if thorough else up[1::3] + up[-1:] + down[1::4]
        for phi in phis:
            j = Vref(J.Jet.var(mp.mpf(phi), 1), **ref)
            V, dV = j.c[0] * mp.mpf(Lam) ** 4, j.c[1] * mp.mpf(Lam) ** 4
            if V <= 0:
                continue
            for cls, c in ((SlowRollIC, 3), (InflationStartIC, 2)):
                Nc = float(-mp.log(V / c) / 2)          # aH^2 + K = 1 there
                args = [dict(N_i=Nc + d) for d in ([-6., -1., -0.05, 0.05, 0.4, 3., 12.])]
                args += [dict(N_i=0), dict(N_i=0.), dict(N_i=int(math.ceil(Nc + 2))), dict(N_i=np.float64(Nc + 1))]
                args += [dict(Omega_Ki=o) for o in (-50., -1., -0.3, -1e-9, 0, 0., np.float64(0), 1e-9, 0.3, 0.95, 1, 1., 1.5)]
                args += [dict(), dict(N_i=Nc + 1, Omega_Ki=0.1), dict(N_i=Nc + 1, Omega_Ki=-0.1)]
                for a in args:
                    if 'N_i' in a and 'Omega_Ki' not in a:
                        g = V / c * mp.exp(2 * mp.mpf(a['N_i'])) - K
                        legal = g > 0
                        N_i, Ok = mp.mpf(a['N_i']), -K / g if g else None
                    elif 'Omega_Ki' in a and 'N_i' not in a:
                        o = mp.mpf(float(a['Omega_Ki']))
                        legal = K != 0 and o * K < 0 and o < 1
                        if legal:
                            N_i, Ok = mp.log(c * K / V * (1 - 1 / o)) / 2, o
                    else:
                        legal = False
                    for form, track in (forms if legal else forms[:1] + forms[2:3]):
                        for t_i, eta_i in ([(2.5, -0.7), (None, -0.7), (2.5, None), (0., 0), (0, -1)] if legal else [(2.5, -0.7)]):
                            tk = ','.join(k for k, v in track.items() if v)
                            key = f'{base}:Lambda={Lam}:{cls.__name__}:phi_i={phi:.6g}:{a}:{form}:{tk}:t_i={t_i}:eta_i={eta_i}'
                            eq = (T if form == 'T' else NE)(K, pot, **track)
                            x_end = {(2.5, -0.7): 77., (0., 0): 0.}.get((t_i, eta_i), 1e300)
                            more = {} if x_end == 1e300 else dict(x_end=x_end)
                            try:
                                ic = cls(eq, phi_i=phi, t_i=t_i, eta_i=eta_i, **a, **more)
                            except Exception as e:
                                ctx.true(key, not legal, f'legal initial condition rejected: {e!r}')
                                if ('N_i' in a) != ('Omega_Ki' in a):
                                    ctx.true(key + ':error', isinstance(e, (InflationStartError, ZeroDivisionError)),
                                             f'impossible geometry reported as {e!r}')
                                ctx.outcome('rejected')
                                continue
                            if not ctx.true(key, legal, f'impossible or ambiguous initial condition accepted: N_i={ic.N_i}, '
                                                        f'Omega_Ki={ic.Omega_Ki}'):
                                continue
                            y0 = np.zeros(len(eq.idx))
                            need_t = form == 'N' and track['track_time']
                            missing = (need_t and t_i is None) or (track['track_eta'] and eta_i is None)
                            try:
                                ic(y0=y0)
                            except Exception as e:
                                ctx.true(key + ':call', missing, f'complete specification rejected: {e!r}')
                                ctx.outcome('incomplete')
                                continue
                            if not ctx.true(key + ':call', not missing, 'tracked variable without initial value accepted'):
                                continue
                            if form == 'T' and t_i is None:
                                if Lam == 1:
                                    try:
                                        solve(ic, events=[])
                                        ctx.bad(key + ':solve', 'integration without an initial time')
                                    except Exception:
                                        ctx.outcome('incomplete')
                                continue
                            H = mp.sqrt(V / c - K * mp.exp(-2 * N_i))
                            pd = -dV / (3 * H) if c == 3 else -mp.sqrt(V)
                            want = {'phi': phi, '_N': N_i, 'dphidt': pd, 'dphidN': pd / H, 't': t_i, 'eta': eta_i}
                            amp = float(max(1, abs(V / c) / H ** 2, mp.exp(-2 * N_i) / H ** 2)) * max(1., abs(float(N_i)))
                            r = 1e-11 * amp
                            for n, i in eq.idx.items():
                                ctx.close(f'{key}:y0[{n}]', y0[i], float(want[n]), r, 1e-12 if n == '_N' else 0, n)
                            ctx.close(key + ':x_ini', ic.x_ini, float(t_i if form == 'T' else N_i), r, 1e-12, 'x_ini')
                            ctx.true(key + ':x_end', ic.x_end == x_end, f'x_end={ic.x_end}')
                            ctx.close(key + ':N_i', ic.N_i, float(N_i), 1e-11, 1e-11, 'N_i')
                            ctx.close(key + ':Omega_Ki', ic.Omega_Ki, float(Ok), 10 * r, 0, 'Omega_Ki')
                            ctx.close(key + ':phi_i', ic.phi_i, phi, 0, 0, 'phi_i')
                            ctx.close(key + ':H_i', ic.H_i, float(H), r, 0, 'H_i')
                            ctx.close(key + ':aH_i', ic.aH_i, float(H * mp.exp(N_i)), r, 0, 'aH_i')
                            ctx.close(key + ':V_i', ic.V_i, float(V), 1e-9, 0, 'V_i')
                            # Friedmann equation including the kinetic part it was set up with
                            if c == 2:
                                H2 = eq.H2(ic.x_ini, y0)
                                ctx.close(key + ':Friedmann', H2, float(H * H), 1e-9 * amp, 0, 'H^2 of the initial state')
                                ctx.close(key + ':start', eq.inflating(ic.x_ini, y0), 0., 0, 1e-9 * float(V) * amp, 'V - phidot^2')
                            # the same specification again, and through the implied parameter
                            y1 = np.full_like(y0, 0.)
                            ic(y0=y1)
                            ctx.true(key + ':repeat', np.array_equal(y0, y1), 'second call differs')
                            if K != 0 and 1 - Ok > 1e-13:    # closer to 1 the double Omega_Ki no longer determines N_i
                                other = dict(Omega_Ki=ic.Omega_Ki) if 'N_i' in a else dict(N_i=ic.N_i)
                                y2 = np.zeros_like(y0)
                                near = 1e-15 / abs(float(1 - Ok)) if 'N_i' in a else 0
                                try:
                                    cls(eq, phi_i=phi, t_i=t_i, eta_i=eta_i, **other)(y0=y2)
                                    ctx.true(key + ':implied', np.allclose(y2, y0, rtol=1e-8 * amp + near, atol=1e-8 + near),
                                             f'{other} gives {y2.tolist()}, not {y0.tolist()}')
                                except InflationStartError as e:
                                    ctx.bad(key + ':implied', f'{other} rejected: {e}')
                            ctx.outcome('accepted')
    # H=0 at the start: exactly representable edge
    if K == 1 and name == 'LinearPotential':
        for cls, phi in ((SlowRollIC, 3.), (InflationStartIC, 2.)):
            try:
                ic = cls(T(K, getattr(pp, name)()), phi_i=phi, N_i=0., t_i=1.)
                ctx.bad(f'{base}:{cls.__name__}:H=0', f'aH_i={ic.aH_i}, Omega_Ki={ic.Omega_Ki} accepted')
            except InflationStartError:
                ctx.ev()
