"""C05: every list of events and every set of tracked variables is reported faithfully by solve()."""
import itertools
import json

import numpy as np
from scipy import integrate
from scipy.optimize import brentq

from mc import bg

PID, LEVEL = 'C05', 'exploration'
TECHNIQUE = "exhaustive enumeration of event lists and variable registrations on the real solver against a step-by-step reference"
NOTE = ("all ordered event lists up to a length over an alphabet of classes x directions x terminal flags x values, for ten "
        "backgrounds (flat/open/closed, kinetic/slow-roll/oscillating/collapsing) in both formulations with every set of "
        "tracked variables; the reference re-derives the crossings from an event-free dense solution")
RULE = ("all sequences of distinct events of length <= 2 and all combinations (each in a rotated order) of length 3, plus the full alphabet, per background x formulation "
        "x tracked variables; all registration orders of variable names; non-trivial: solution was compared with the reference")
ASSUMPTIONS = ["events in a list have distinct names (results are stored by name)",
               "a crossing is resolved at the granularity of scipy's accepted steps"]
TOL = dict(rtol=1e-8, atol=1e-10)
CASE_TIMEOUT = 300

# (label, class, args after equations, kwargs, terminal, direction, condition name)
ALPHA = [('Inf%+d%s' % (d, 'T' if t else ''), 'InflationEvent', (d, bool(t)), bool(t), d, 'inflating', 0.)
         for d in (-1, 0, 1) for t in (0, 1)]
ALPHA += [('Aft%+d%s' % (d, 'T' if t else ''), 'AfterInflationEndEvent', (d, bool(t)), bool(t), d, 'w', 0.)
          for d in (-1, 0, 1) for t in (0, 1)]
ALPHA += [('Phi%+d%s' % (d, 'T' if t else ''), 'Phi0Event', (d, bool(t)), bool(t), d, 'phi', 0.)
          for d in (-1, 0, 1) for t in (0, 1)]
ALPHA += [('UntN', 'UntilNEvent', ('N1',), True, 0, '_N', 'N1'), ('UntNf', 'UntilNEvent', ('N0', 0, False), False, 0, '_N', 'N0'),
          ('UntN+', 'UntilNEvent', ('N0', 1, False), False, 1, '_N', 'N0'), ('UntN-', 'UntilNEvent', ('N1', -1, True), True, -1, '_N', 'N1'),
          ('UntT', 'UntilTEvent', ('t1',), True, 0, 't', 't1'), ('UntTf', 'UntilTEvent', ('t1', 1, False), False, 1, 't', 't1'),
          ('UntT-', 'UntilTEvent', ('t1', -1, False), False, -1, 't', 't1'), ('Col+', 'CollapseEvent', (1, False), False, 1, 'H2', 0.),
          ('Col', 'CollapseEvent', (), True, 0, 'H2', 0.), ('Col-', 'CollapseEvent', (-1, False), False, -1, 'H2', 0.),
          ('Exit', 'ModeExitEvent', ('k1', 0, False), False, 0, 'k', 'k1'), ('Exit+', 'ModeExitEvent', ('k2', 1, True), True, 1, 'k', 'k2'),
          ('Exit-', 'ModeExitEvent', ('k2', -1, False), False, -1, 'k', 'k2')]
# the same classes with a shifted condition
ALPHA += [('Inf-1v', 'InflationEvent', (-1, False, 'V1'), False, -1, 'inflating', 'V1'),
          ('Aft+1v', 'AfterInflationEndEvent', (1, False, -0.2), False, 1, 'w', -0.2),
          ('Phi-1v', 'Phi0Event', (-1, False, 'p1'), False, -1, 'phi', 'p1'),
          ('Colv', 'CollapseEvent', (-1, False, 'h1'), False, -1, 'H2', 'h1')]


def lists(tier):
    A = list(range(len(ALPHA)))
    out = [()] + [(a,) for a in A] + list(itertools.permutations(A, 2))
    for i, c in enumerate(itertools.combinations(A, 3)):
        if tier == 'thorough':
            out += list(itertools.permutations(c))
        elif i % 4 == 0:
            out.append(c[(i // 4) % 3:] + c[:(i // 4) % 3])
    out.append(tuple(A))
    out.append(tuple(A[::-1]))
    out.append(tuple(a for a in A if not ALPHA[a][3]))
    return out


def opts(form):
    return [(), ('eta',)] if form == 'T' else [(), ('t',), ('eta',), ('t', 'eta')]


def cases(tier, seed):
    out = [dict(kind='registry', n=n) for n in (1, 2, 3, 4)]
    ls = lists(tier)
    nchunk = 12 if tier == 'thorough' else 3
    for c, f in bg.FORMS:
        for io, o in enumerate(opts(f)):
            for j in range(nchunk):
                # all lists for every configuration: the list set is spread over the tracked-variable choices
                out.append(dict(kind='solve', cfg=c, form=f, opts=list(o), part=j, nchunk=nchunk, io=io, no=len(opts(f))))
    return out


def registry(ctx, n):
    """All registration orders of up to n variables, in one or several calls."""
    from primpy.equations import Equations
    names = ['aa', 'phi', '_N', 'eta'][:n]
    for perm in itertools.permutations(names):
        for cut in range(n + 1):
            for indep in ('x', 't'):
                eq = Equations()
                eq._set_independent_variable(indep) if cut % 2 else None
                eq.add_variable(*perm[:cut])
                eq.add_variable(*perm[cut:])
                if not cut % 2:
                    eq._set_independent_variable(indep)
                key = f'registry:{perm}:{cut}:{indep}'
                ctx.true(key, eq.idx == {v: i for i, v in enumerate(perm)}, f'idx={eq.idx}')
                y1 = np.arange(n) + 10.
                y2 = np.arange(3 * n).reshape(n, 3) * 1.
                ctx.true(key + ':indep', getattr(eq, indep)(7., y1) == 7. and eq.independent_variable == indep, 'independent variable')
                for i, v in enumerate(perm):
                    ctx.true(f'{key}:{v}', getattr(eq, v)(0, y1) == y1[i] and np.array_equal(getattr(eq, v)(0, y2), y2[i])
                             and getattr(eq, v)(0, list(y1)) == y1[i], 'accessor does not return its own row')

                class Dummy(dict):
                    __getattr__ = dict.__getitem__
                    __setattr__ = dict.__setitem__
                    __delattr__ = dict.__delitem__
                s = Dummy(t=np.array([1., 2., 3.]), y=y2, t_events=[np.array([1.5]), np.array([])],
                          y_events=[y2[:, :1].T, np.array([])], event_keys=['A', 'B'])
                s = eq.sol(s)
                ctx.true(key + ':sol', np.array_equal(s.x, [1., 2., 3.]) and np.array_equal(s[indep], s.x)
                         and all(np.array_equal(s[v], y2[i]) for i, v in enumerate(perm)), 'rows by name')
                ctx.true(key + ':events', all(np.array_equal(s[v + '_events']['A'], y2[i, :1]) and s[v + '_events']['B'].size == 0
                                              for i, v in enumerate(perm))
                         and np.array_equal(s[indep + '_events']['A'], [1.5]) and np.array_equal(s['x_events']['A'], [1.5]),
                         'event values by name')


_REF = {}


def reference(cfg, form, o):
    """Event-free dense run, its steps, and every sign change of every condition."""
    k = (cfg, form, tuple(o))
    if k in _REF:
        return _REF[k]
    eq, st, a, b = bg.build(cfg, form, o)
    D = bg.Diag(eq, form, eq.K, eq.potential)
    y0 = np.zeros(len(eq.idx))
    for n, i in eq.idx.items():
        y0[i] = st[n]
    run = integrate.solve_ivp(eq, (a, b), y0, method='RK45', dense_output=True, **TOL)
    ts, ip = run.t, run.sol.interpolants
    N = D.N(run.t, run.y)
    lnk = D.lnaH(run.t, run.y)
    m = len(ts) // 2
    par = {'N0': 0.3 * N[0] + 0.7 * N[len(N) // 2], 'N1': 0.2 * N[0] + 0.8 * N[-1], 't1': 0.4 * a + 0.6 * b if form == 'T' else None,
           'k1': np.exp(0.5 * lnk[0] + 0.5 * np.nanmax(lnk)), 'k2': np.exp(0.4 * np.nanmax(lnk) + 0.6 * np.nanmin(lnk))}
    V0, ph0 = float(eq.potential.V(st['phi'])), st['phi']
    par.update(V1=0.05 * V0, p1=0.6 * ph0, h1=0.03 * V0)
    if form == 'N' and 't' in o:
        tt = D.get('t', run.t, run.y)
        par['t1'] = 0.4 * tt[0] + 0.6 * tt[-1]
    cond = {'inflating': D.inflating, 'w': D.w, 'phi': lambda x, y: D.get('phi', x, y), '_N': D.N,
            't': lambda x, y: D.get('t', x, y), 'H2': D.H2}

    def crossings(c, val):
        if c == 'k':
            f = lambda x, y: D.lnaH(x, y) - np.log(val)
        else:
            f = lambda x, y: cond[c](x, y) - val
        out = []
        g = [float(f(t, run.y[:, i])) for i, t in enumerate(ts)]
        for i in range(len(ts) - 1):
            up, down = g[i] <= 0 <= g[i + 1], g[i] >= 0 >= g[i + 1]
            if not (up or down):
                continue
            h = lambda t: float(f(t, ip[i](t)))
            try:
                r = brentq(h, ts[i], ts[i + 1], xtol=4e-16, rtol=4e-16 * 4)
            except ValueError:
                r = ts[i] if abs(g[i]) < abs(g[i + 1]) else ts[i + 1]
            out.append((i, r, up, down, ip[i](r)))
        return out
    cr = {}
    for lab, _, _, _, d, c, v in ALPHA:
        if c == 't' and par['t1'] is None:
            continue
        kk = (c, v)
        if kk not in cr:
            cr[kk] = crossings(c, par[v] if isinstance(v, str) else v)
    _REF.clear()
    _REF[k] = (run, cr, par)
    return _REF[k]


def expected(run, cr, evs):
    """Event records and stopping point for a list of events, per scipy's documented step semantics."""
    hits = {}
    stop = None
    for e in evs:
        _, _, _, term, d, c, v = ALPHA[e]
        hits[e] = [h for h in cr[(c, v)] if (d > 0 and h[2]) or (d < 0 and h[3]) or d == 0]
        if term and hits[e] and (stop is None or hits[e][0][:2] < stop[:2]):
            stop = hits[e][0]
    if stop is not None:
        for e in evs:
            hits[e] = [h for h in hits[e] if h[0] < stop[0] or h[0] == stop[0] and h[1] <= stop[1] * (1 + 1e-13)]
    return hits, stop


def run(case, ctx):
    if case['kind'] == 'registry':
        return registry(ctx, case['n'])
    import primpy.events as pe
    from primpy.solver import solve
    cfg, form, o = case['cfg'], case['form'], case['opts']
    ref, cr, par = reference(cfg, form, o)
    ls = lists(ctx.tier)
    mine = [l for i, l in enumerate(ls) if i % case['nchunk'] == case['part']
            and (ctx.tier == 'thorough' or (i // case['nchunk']) % case['no'] == case['io'] or i > len(ls) - 4)]
    tag = f'{cfg}:{form}:{"+".join(o) or "-"}'
    collapse = cr[('H2', 0.)]
    zone = collapse[0][1] - 1e-6 * max(1, abs(collapse[0][1])) if collapse else np.inf
    for l in mine:
        if any(ALPHA[e][5] == 't' for e in l) and par['t1'] is None:
            continue
        labels = [ALPHA[e][0] for e in l]
        key = f'{tag}:[{",".join(labels)}]'
        eq, st, a, b = bg.build(cfg, form, o)
        evs = []
        for e in l:
            args = [par[x] if isinstance(x, str) else x for x in ALPHA[e][2]]
            # t_i: "do not judge the first point", which changes nothing unless the crossing is in the very first step
            first = ALPHA[e][1] == 'InflationEvent' and ALPHA[e][4] and sum(l) % 3 == 0 and \
                all(h[0] > 0 for h in cr[('inflating', ALPHA[e][6])])
            ctx.outcome('first point exempt' if first else 'every point judged')
            evs.append(getattr(pe, ALPHA[e][1])(eq, *args, **(dict(t_i=a) if first else {})))
        for e, ev in zip(l, evs):
            ctx.true(f'{key}:{ALPHA[e][0]}:flags', ev.direction == ALPHA[e][4] and bool(ev.terminal) == ALPHA[e][3],
                     f'direction={ev.direction} terminal={ev.terminal}')
        names = [ev.name for ev in evs]
        # the library may not give different kinds of events, or different directions/flags where it encodes them, one name
        if len(set(names)) < len(names):
            same = [(labels[i], labels[j]) for i in range(len(l)) for j in range(i) if names[i] == names[j]]
            ctx.outcome('name shared')
            ok = all(p[0].rstrip('Tf+-v') == p[1].rstrip('Tf+-v') and (p[0][:3] in ('Unt', 'Col') or (p[0] + p[1])[-1] == 'v' or p[0][-1] == 'v')
                     for p in same)
            ctx.true(key + ':names', ok, f'events share a name: {same}')
            for i, ev in enumerate(evs):
                if names.count(names[i]) > 1:
                    ev.name = f'{names[i]}#{i}'     # names are the user's to choose; results are keyed by them
            names = [ev.name for ev in evs]
        sol = solve(bg.raw_ic(eq, st, a, b), events=evs, **TOL)
        hits, stop = expected(ref, cr, l)
        if stop is None:
            xs, ys = ref.t, ref.y
        else:
            xs = np.append(ref.t[:stop[0] + 1], stop[1])
            ys = np.append(ref.y[:, :stop[0] + 1], stop[4][:, None], axis=1)
        ctx.ev()
        noisy = xs[-1] > zone and sol.x[-1] > zone
        fin = sol.x[-1]
        if noisy:                       # at the collapse H^2 is rounding noise: only what comes before it is determined
            xs, ys = xs[xs < zone], ys[:, :np.sum(xs < zone)]
        sx, sy = (sol.x[sol.x < zone], sol.y[:, sol.x < zone]) if noisy else (sol.x, sol.y)
        n = min(len(xs), len(sx))
        if stop is not None and not noisy and abs(stop[1] - ref.t[stop[0]]) < 1e-12 * abs(stop[1]):
            n -= 1
        ok = (abs(len(xs) - len(sx)) <= (1 if noisy or n < len(xs) else 0) and np.allclose(sx[:n], xs[:n], rtol=1e-8, atol=1e-10) and
              np.allclose(sy[:, :n], ys[:, :n], rtol=1e-7, atol=1e-9) and (not noisy or fin < zone + 1e-4 * max(1, abs(zone))))
        if not ok:
            ctx.bad(key + ':trajectory', f'{len(sol.x)} steps ending at x={sol.x[-1]!r}, expected {len(xs)} ending at {xs[-1]!r}')
            continue
        ctx.true(key + ':keys', list(sol.event_keys) == names, f'event_keys={sol.event_keys}')
        ctx.true(key + ':indep', np.array_equal(getattr(sol, 't' if form == 'T' else '_N'), sol.x), 'independent variable by name')
        for v, i in eq.idx.items():
            ctx.true(f'{key}:{v}', np.array_equal(getattr(sol, v), sol.y[i]), f'{v} is not its own row')
        allv = list(eq.idx) + ['t' if form == 'T' else '_N', 'x']
        stops = 0
        for e, nm in zip(l, names):
            want = hits[e]
            got = np.atleast_1d(sol.x_events.get(nm, np.array([np.nan])))
            kk = f'{key}:{ALPHA[e][0]}'
            wx = np.array([h[1] for h in want])
            # a simultaneous crossing of the same condition at the stopping point may or may not be recorded
            tie = stop is not None and len(wx) and abs(wx[-1] - stop[1]) < 1e-9 and any(
                x != e and ALPHA[x][3] and hits[x] and abs(hits[x][0][1] - stop[1]) < 1e-9 for x in l)
            if tie and len(got) == len(wx) - 1:
                want, wx = want[:-1], wx[:-1]
            if stop is not None and len(got) and abs(got[-1] - sol.x[-1]) < 1e-9:
                stops += ALPHA[e][3]
            if noisy:
                late, n = np.sum(got > zone), int(np.sum(wx < zone))
                if ALPHA[e][5:] == ('H2', 0.) and ALPHA[e][4] <= 0:
                    ctx.true(kk + ':collapse', (late > 0) == (n < len(wx)), f'crossings {got.tolist()}, expected {wx.tolist()}')
                got, want, wx = got[got < zone], want[:n], wx[:n]
            if not ctx.true(kk + ':crossings', len(got) == len(wx) and np.allclose(got, wx, rtol=1e-9, atol=1e-9),
                            f'crossings {got.tolist()}, expected {wx.tolist()}'):
                continue
            ctx.outcome(f'{ALPHA[e][0]}:{min(len(wx), 3)}')
            for v in allv:
                ge = np.atleast_1d(getattr(sol, v + '_events')[nm])
                if noisy:
                    ge = ge[:len(wx)]
                we = wx if v not in eq.idx else np.array([h[4][eq.idx[v]] for h in want])
                ctx.true(f'{kk}:{v}_events', len(ge) == len(we) and np.allclose(ge, we, rtol=1e-6, atol=1e-8),
                         f'{v}_events {ge.tolist()}, expected {we.tolist()}')
            ye = np.asarray(sol.y_events[nm])
            ctx.true(kk + ':y_events', len(ye) == np.size(sol.x_events[nm]), 'y_events length')
        ctx.true(key + ':stop', stop is None or stops > 0, 'no terminal event is recorded at the point where integration stopped')
        extra = [k for k in sol.x_events if k not in names]
        ctx.true(key + ':extra', not extra, f'extra events {extra}')
        ctx.true(key + ':status', (sol.status == 1) == (stop is not None), f'status={sol.status}')
    # tracking optional variables does not change the physics
    if case['part'] == 0 and o:
        base, _, _ = reference(cfg, form, ())
        xe = min(base.t[-1], ref.t[-1])
        grid = np.linspace(base.t[0], base.t[0] + 0.9 * (xe - base.t[0]), 40)
        eq0 = bg.build(cfg, form, ())[0]
        eq1 = bg.build(cfg, form, o)[0]
        for v in eq0.idx:
            p, q = base.sol(grid)[eq0.idx[v]], ref.sol(grid)[eq1.idx[v]]
            ctx.true(f'{tag}:optional:{v}', np.allclose(p, q, rtol=1e-3, atol=1e-3 * np.max(np.abs(p))),
                     f'{v} changes by {np.max(np.abs(p - q))} when tracking {o}')
