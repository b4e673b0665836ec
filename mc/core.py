"""Enumeration engine: cases, workers, hang detection, known findings, evidence, replay.

A check module defines

    PID, LEVEL, RULE, ASSUMPTIONS
    cases(tier, seed) -> list of JSON-able case descriptions (complete enumeration, simplest first)
    run(case, ctx)    -> evaluates one case against the real code, reporting through ctx

`ctx.ev(n, nontrivial)` counts evaluations, `ctx.bad(key, msg)` reports a violation; `key` identifies the failing
input or history and is what known_findings.json is matched against.
"""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PRIMPY_MC_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_paths():
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)   # pure-python helpers only (mpmath); everything else resolves in /opt/venv first
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    import primpy
    f = os.path.realpath(primpy.__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.evals = 0
        self.nontrivial = 0
        self.viol = []
        self.extra = {}
        self.outcomes = {}
        self.sample = None

    def ev(self, n=1, nontrivial=True):
        self.evals += n
        if nontrivial:
            self.nontrivial += n

    def bad(self, key, msg):
        if len(self.viol) < 200:
            self.viol.append((str(key), str(msg)))

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- comparison helpers -------------------------------------------------
    def close(self, key, got, want, rtol, atol=0., what=''):
        """Report unless |got - want| <= atol + rtol*|want| elementwise (NaN never matches a number)."""
        import numpy as np
        self.ev()
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape or g.size == 1 or w.size == 1
            if ok:
                with np.errstate(all='ignore'):
                    d = np.abs(g - w) <= atol + rtol * np.abs(w)
                    d |= np.isnan(g) & np.isnan(w)
                    d |= (g == w)
                ok = bool(np.all(d))
        except (TypeError, ValueError) as e:
            self.bad(key, f"{what} not comparable: got {got!r}, expected {want!r} ({e})")
            return False
        if not ok:
            def short(a):
                a = np.ravel(a)
                return repr(a.tolist() if a.size <= 6 else a[:3].tolist() + ['...'] + a[-2:].tolist())
            self.bad(key, f"{what} got {short(g)} expected {short(w)} (rtol={rtol:g}, atol={atol:g})")
        return ok

    def true(self, key, cond, msg):
        self.ev()
        if not cond:
            self.bad(key, msg)
        return bool(cond)


def run_case(mod, case, tier, seed):
    ctx = Ctx(tier, seed)
    try:
        mod.run(case, ctx)
    except Exception as e:   # an unexpected exception of the code under test breaks "it returns an answer"
        tb = traceback.format_exc(limit=-4)
        ctx.bad('exception:%s' % json.dumps(case, sort_keys=True, default=str),
                f"unexpected {type(e).__name__}: {e}\n{tb}")
    return dict(evals=ctx.evals, nt=ctx.nontrivial, viol=ctx.viol, extra=ctx.extra, outcomes=ctx.outcomes,
                sample=ctx.sample)


def _worker(conn, mod, cases, tier, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    while True:
        i = conn.recv()
        if i is None:
            return
        conn.send((i, run_case(mod, cases[i], tier, seed)))


def explore(mod, cases, tier, seed, nproc=None, case_timeout=300, deadline=None):
    """Run every case in forked workers; a case that never returns is a violation of its own and ends the exploration."""
    start = time.time()
    nproc = nproc or min(os.cpu_count() or 1, 8)
    nproc = max(1, min(nproc, len(cases)))
    ctxm = mp.get_context('fork')
    todo = list(range(len(cases)))[::-1]
    results = {}
    workers = {}

    def spawn():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=(b, mod, cases, tier, seed), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, 0.]

    def feed(conn):
        w = workers[conn]
        if todo:
            w[1] = todo.pop()
            w[2] = time.time()
            conn.send(w[1])
        else:
            conn.send(None)
            w[1] = None
            workers.pop(conn)
            w[0].join(5)

    for _ in range(nproc):
        spawn()
    for c in list(workers):
        feed(c)
    while workers:
        ready = multiprocessing.connection.wait(list(workers), timeout=1.)
        for c in ready:
            try:
                i, r = c.recv()
            except (EOFError, OSError):
                p, i, _ = workers.pop(c)
                p.join(5)
                results[i] = dict(evals=1, nt=1, extra={}, outcomes={}, sample=None, viol=[(
                    'crash:%s' % json.dumps(cases[i], sort_keys=True, default=str),
                    f"worker died (exit code {p.exitcode}) while evaluating the case")])
                spawn()
                feed(list(workers)[-1])
                continue
            results[i] = r
            feed(c)
        now = time.time()
        late = deadline is not None and now - start > deadline
        hung = [c for c, (p, i, t0) in workers.items() if i is not None and now - t0 > (min(60, case_timeout) if late else case_timeout)]
        if hung:
            for c in hung:
                p, i, t0 = workers[c]
                results[i] = dict(evals=1, nt=1, extra={}, outcomes={}, sample=None, viol=[(
                    'hang:%s' % json.dumps(cases[i], sort_keys=True, default=str),
                    f"no answer within {now - t0:.0f} s, exploration abandoned")])
            for p, i, t0 in workers.values():
                p.kill()
                p.join(5)
            break
    none = dict(evals=0, nt=0, extra={}, outcomes={}, sample=None, viol=[])
    return [results.get(i, none) for i in range(len(cases))], len(results)


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == pid and e.get('status') == 'open']


def main(mod, argv):
    pid = mod.PID
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    args = [a for a in argv if a in ('quick', 'thorough')]
    if args:
        tier = args[0]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    setup_paths()
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rep = json.load(f)
        if hasattr(mod, 'prepare'):
            mod.prepare(rep.get('tier', tier), seed)
        r = run_case(mod, rep['case'], rep.get('tier', tier), seed)
        for k, m in r['viol']:
            print(f"REPRODUCED {k}: {m}")
        print(f"{len(r['viol'])} problem(s) in this case")
        return 1 if r['viol'] else 0
    t0 = time.time()
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(tier, seed)
    except Exception as e:
        path = os.path.join(VERIF, 'replays', pid, 'prepare.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, case=None, message=traceback.format_exc()), f, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  the code under test failed while the check was being set up: {type(e).__name__}: {e}")
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, level='other',
                           coverage=dict(explanation='setup failed: ' + repr(e)), wall_s=time.time() - t0,
                           violations=1), f)
        return 1
    cases = mod.cases(tier, seed)
    quick = tier == 'quick'
    limit = getattr(mod, 'CASE_TIMEOUT', 300)
    res, ndone = explore(mod, cases, tier, seed, case_timeout=min(limit, 240) if quick else 6 * limit, deadline=720 if quick else None)
    known = load_known(pid)
    hits = {}
    fresh = []
    for case, r in zip(cases, res):
        for key, msg in r['viol']:
            for e in known:
                if re.fullmatch(e['match'], key, flags=re.S):
                    hits.setdefault(e['id'], (e, 0))
                    hits[e['id']] = (e, hits[e['id']][1] + 1)
                    break
            else:
                fresh.append((case, key, msg))
    for e, n in hits.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']} ({n} explored case(s))")
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    repdir = os.path.join(VERIF, 'replays', pid)
    if os.path.isdir(repdir):
        for f in os.listdir(repdir):
            if re.fullmatch(r'\d+\.json', f):
                os.unlink(os.path.join(repdir, f))
    shown = 0
    for n, (case, key, msg) in enumerate(fresh):
        if n >= 20:
            break
        os.makedirs(repdir, exist_ok=True)
        path = os.path.join(repdir, f'{n}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, case=case, key=key, message=msg,
                           how=f"cd {VERIF} && ./run {pid} --replay {path}"), f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {key}: {msg}"[:1500])
        shown += 1
    if len(fresh) > shown:
        print(f"  ... and {len(fresh) - shown} further violations")
    evals = sum(r['evals'] for r in res)
    nt = sum(r['nt'] for r in res)
    extra, outcomes = {}, {}
    for r in res:
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
    samples = [dict(case=c, **({'detail': r['sample']} if r['sample'] is not None else {}))
               for c, r in list(zip(cases, res))[:: max(1, len(cases) // 6)]][:8]
    cov = dict(cases=ndone, exhaustive=ndone == len(cases), samples=json.loads(json.dumps(samples, default=str)),
               outcomes=dict(sorted(outcomes.items())), **extra)
    if mod.LEVEL == 'model_checking':
        cov.setdefault('states', 0)
        cov.setdefault('transitions', 0)
        cov.setdefault('traces_validated_against_impl', 0)
        cov['comparisons'] = evals
    else:
        cov.update(evaluations=evals, distinct_nontrivial=nt)
    cov['rule'] = mod.RULE
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
              violations=len(fresh))
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}] cases={len(cases)} evaluations={evals} violations={len(fresh)} "
          f"known={sum(n for _, n in hits.values())} wall={time.time() - t0:.1f}s")
    return 1 if fresh else 0
