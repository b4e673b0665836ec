"""C17: version bumping is a unit step applied to the code and the README together."""
import hashlib
import importlib.util
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

from mc import core

PID, LEVEL = 'C17', 'model_checking'
TECHNIQUE = ("explicit-state exploration of a version model (all bump sequences to a depth, all version pairs), every transition replayed "
             "on the real scripts in a scratch tree")
NOTE = ("the model is the pair (code version, README version) under bumps; all states reachable within the depth from each start are "
        "enumerated and each transition is executed by the real bump script on a copy of the tree; the step predicate and the CI gate are "
        "compared with the model on all pairs of an alphabet; other versions and a crash inside the script are not covered")
RULE = ("pairs: all (a, b) over components x pre-release tags; bumps: start versions x all sequences of {major, minor, micro, none, unknown} to "
        "depth 2 or 3 (thorough 5), states merged; gate: all (code, README, master) triples over an alphabet")
ASSUMPTIONS = ["the requested step acts on the release part: bumping a pre-release gives the next final version"]
CASE_TIMEOUT = 600
COMP = (0, 1, 2, 9, 10)
COMP_T = (0, 1, 2, 9, 10, 11, 99)
PRE = (None, ('a', 0), ('a', 1), ('a', 10), ('b', 0), ('rc', 0), ('rc', 1))
PRE_T = PRE + (('a', 2), ('a', 9), ('b', 1), ('rc', 9), ('rc', 10))
STARTS = ((0, 0, 0), (0, 0, 9), (0, 9, 9), (1, 9, 10), (2, 18, 3), (9, 9, 9), (10, 0, 99), (1, 1, 1), (11, 11, 11))
ACTIONS = ('micro', 'minor', 'major', None, 'nonsense')
GATE = ((1, 0, 0, None), (1, 0, 1, None), (1, 1, 0, None), (2, 0, 0, None), (1, 9, 0, None), (1, 10, 0, None), (1, 0, 1, ('a', 0)),
        (1, 0, 1, ('a', 1)), (1, 10, 0, ('b', 0)), (1, 10, 0, ('rc', 0)), (1, 9, 9, None), (1, 9, 10, None), (10, 0, 0, None))


def text(v):
    return '%d.%d.%d' % v[:3] + ('' if v[3] is None else '%s%d' % v[3])


def step3(x, y):
    """x is the next micro, minor or major release after y."""
    return x in ((y[0], y[1], y[2] + 1), (y[0], y[1] + 1, 0), (y[0] + 1, 0, 0))


def unit(a, b):
    A, B, p, q = a[:3], b[:3], a[3], b[3]
    if p is None and q is None:
        return step3(A, B)
    if p is None:
        return A == B
    if q is None:
        if A <= B or p[1] != 0:
            return False
        return step3(A, B)
    if A != B:
        return False
    return p[1] == q[1] + 1 if p[0] == q[0] else ('a', 'b', 'rc').index(p[0]) > ('a', 'b', 'rc').index(q[0]) and p[1] == 0


def model(v, action):
    return {'micro': (v[0], v[1], v[2] + 1), None: (v[0], v[1], v[2] + 1), 'minor': (v[0], v[1] + 1, 0), 'major': (v[0] + 1, 0, 0),
            'nonsense': v}[action]


def cases(tier, seed):
    T = tier == 'thorough'
    comp, pre = (COMP_T, PRE_T) if T else (COMP, PRE)
    out = [dict(kind='pairs', major=m, comp=list(comp), pre=[list(p) if p else None for p in pre]) for m in comp]
    out.append(dict(kind='spelling'))
    for s in STARTS:
        out.append(dict(kind='bumps', start=list(s), depth=5 if T else 3 if s in STARTS[2:4] else 2))
    out += [dict(kind='prebump', pre=list(p)) for p in PRE[1:]]
    out += [dict(kind='gate', master=i, mismatch=T) for i in range(len(GATE))]
    return out


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def function():
    path = os.path.join(core.REPO, 'bin', 'utils.py')
    spec = importlib.util.spec_from_file_location('primpy_bin_utils', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.unit_incremented


def run_pairs(case, ctx):
    f = function()
    pre = [tuple(p) if p else None for p in case['pre']]
    C = case['comp']
    V = [(a, b, c, p) for a in C for b in C for c in C for p in pre]
    texts = {v: text(v) for v in V}
    n = 0
    for a in V:
        if a[0] != case['major']:
            continue
        for b in V:
            want = unit(a, b)
            n += 1
            try:
                got = f(texts[a], texts[b])
            except Exception as e:
                got = e
            if got is not want and (isinstance(got, Exception) or bool(got) != want):
                ctx.bad('unit_incremented(%s, %s)' % (texts[a], texts[b]), 'is %r, should be %r' % (got, want))
    ctx.ev(n)
    ctx.add('states', len(V) if case['major'] == C[0] else 0)
    ctx.add('transitions', n)
    ctx.add('traces_validated_against_impl', n)
    ctx.sample = dict(major=case['major'], pairs=n)


def run_spelling(case, ctx):
    """Equivalent spellings of a version are the same version."""
    f = function()
    spell = {(1, 0, 0, None): ('1', '1.0', '1.0.0', 'v1.0.0', ' 1.0.0', '01.0.0'), (1, 0, 1, None): ('1.0.1', 'v1.0.1', '1.00.01'),
             (1, 1, 0, None): ('1.1', '1.1.0'), (2, 0, 0, None): ('2', '2.0', '2.0.0'),
             (2, 0, 0, ('a', 0)): ('2.0a', '2.0.0a0', '2.0.0-alpha.0', '2a0', '2.0alpha'), (2, 0, 0, ('a', 1)): ('2.0a1', '2.0.0a1', '2.0.0_alpha1'),
             (2, 0, 0, ('b', 0)): ('2.0b', '2.0.0beta0'), (2, 0, 0, ('rc', 0)): ('2.0rc0', '2.0.0c0', '2.0.0-pre0', '2rc')}
    for a, b in itertools.product(spell, spell):
        want = unit(a, b)
        for s, t in itertools.product(spell[a], spell[b]):
            ctx.add('transitions')
            ctx.add('traces_validated_against_impl')
            ctx.true('unit_incremented(%s, %s)' % (s, t), bool(f(s, t)) == want, 'should be %r' % want)
    ctx.add('states', sum(map(len, spell.values())))


class Tree:
    """A scratch copy of the repository's files whose scripts may be executed."""

    def __init__(self, v):
        self.dir = tempfile.mkdtemp(prefix='primpy-mc-')
        skip = shutil.ignore_patterns('.git', '__pycache__', '*.egg-info', '*.pyc', 'build', 'tests', 'docs')
        self.root = os.path.join(self.dir, 'tree')
        shutil.copytree(core.REPO, self.root, ignore=skip)
        self.code, self.readme = (os.path.join(self.root, *p) for p in (('primpy', '__version__.py'), ('README.rst',)))
        now = self.versions()
        assert now[0] == now[1], now
        self.old = now[0]
        self.set(v)
        open(os.path.join(self.root, 'decoy.py'), 'w').write("__version__ = '%s'\n" % v)
        self.before = self.digest()

    def set(self, code, readme=None):
        now = self.versions()
        for path, was, new in ((self.code, now[0], code), (self.readme, now[1], readme or code)):
            s = open(path).read()
            lines = s.splitlines(True)
            k = [i for i, l in enumerate(lines) if was in l and (l.startswith('__version__') or l.startswith(':Version:'))]
            lines[k[0]] = lines[k[0]].replace(was, new, 1)
            open(path, 'w').write(''.join(lines))

    def versions(self):
        d = {}
        exec(open(self.code).read(), d)
        r = [l.split(':')[2].strip() for l in open(self.readme) if l.startswith(':Version:')]
        return d['__version__'], r[0] if len(r) == 1 else repr(r)

    def digest(self):
        """File -> content, with the version token of the two version files abstracted."""
        out = {}
        v = self.versions()
        for d, dirs, fs in os.walk(self.root):
            dirs[:] = [x for x in dirs if x not in ('__pycache__', '.git')]
            for n in fs:
                p = os.path.join(d, n)
                b = open(p, 'rb').read()
                if p == self.code:
                    b = b.replace(v[0].encode(), b'<V>')
                elif p == self.readme:
                    b = b.replace(b':Version: ' + v[1].encode(), b':Version: <V>')
                out[os.path.relpath(p, self.root)] = (hashlib.sha1(b).hexdigest(), os.stat(p).st_mode)
        return out

    def bump(self, action):
        return subprocess.run([sys.executable, os.path.join(self.root, 'bin', 'bump_version.py')] + ([] if action is None else [action]),
                              cwd=self.root, env=env(self.dir), capture_output=True, text=True, timeout=60)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def env(home):
    e = dict(os.environ, HOME=home, GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_SYSTEM='/dev/null', PYTHONDONTWRITEBYTECODE='1')
    e.pop('LD_PRELOAD', None)
    for who in ('AUTHOR', 'COMMITTER'):
        e['GIT_%s_NAME' % who], e['GIT_%s_EMAIL' % who] = 'x', 'x@example.org'
    return e


def run_bumps(case, ctx):
    """Breadth-first over model states; every transition executed from a tree that is in the source state."""
    start = tuple(case['start'])
    t = Tree(text(start + (None,)))
    f = function()
    try:
        seen, layer = {start}, [start]
        for depth in range(case['depth']):
            nxt = []
            for v in layer:
                for action in ACTIONS:
                    w = model(v, action)
                    t.set(text(v + (None,)))
                    r = t.bump(action)
                    got = t.versions()
                    key = 'bump %s from %s' % (action, text(v + (None,)))
                    ctx.add('transitions')
                    ctx.add('traces_validated_against_impl')
                    ctx.true(key, got == (text(w + (None,)),) * 2, 'gives code %s and README %s instead of %s (%s)' % (got + (text(w + (None,)), r.stderr[-200:])))
                    now = t.digest()
                    ctx.true(key, now == t.before, 'touched %s' % sorted(k for k in set(now) | set(t.before) if now.get(k) != t.before.get(k)))
                    if w != v:
                        ctx.true(key, f(text(w + (None,)), text(v + (None,))), 'the step is not recognised as a unit increment')
                    if now != t.before or got[0] != got[1]:
                        t.close()
                        t = Tree(text(v + (None,)))
                    if w not in seen:
                        seen.add(w)
                        nxt.append(w)
            layer = nxt
        # sequences without resetting in between: the longest paths
        for seq in itertools.product(('micro', 'minor', 'major'), repeat=case['depth']):
            t.set(text(start + (None,)))
            v = start
            for a in seq:
                t.bump(a)
                v = model(v, a)
                ctx.add('transitions')
            ctx.add('traces_validated_against_impl')
            ctx.true('sequence %s from %s' % (seq, case['start']), t.versions() == (text(v + (None,)),) * 2 and t.digest() == t.before,
                     'gives %s instead of %s' % (t.versions(), text(v + (None,))))
        ctx.add('states', len(seen))
        ctx.outcome('bump states')
        ctx.sample = dict(start=case['start'], depth=case['depth'], states=len(seen))
    finally:
        t.close()


def run_prebump(case, ctx):
    v = (1, 9, 9, tuple(case['pre']))
    t = Tree(text(v))
    try:
        for action in ACTIONS:
            t.set(text(v))
            t.bump(action)
            want = text(model(v[:3], action) + (None,))
            got = t.versions()
            ctx.add('transitions')
            ctx.add('traces_validated_against_impl')
            ok = got == (want,) * 2 or action == 'nonsense' and got == (text(v),) * 2
            ctx.true('bump %s from %s' % (action, text(v)), ok and t.digest() == t.before, 'gives %s instead of %s' % (got, want))
        ctx.add('states')
    finally:
        t.close()


def run_gate(case, ctx):
    """The CI gate passes exactly when code and README agree and are a unit step after master."""
    gate = os.path.join('.github', 'workflows', 'check_version.py')
    if not os.path.exists(os.path.join(core.REPO, gate)):
        ctx.outcome('no gate script')
        return
    master = GATE[case['master']]
    t = Tree(text(master))
    try:
        e = env(t.dir)
        git = lambda *a: subprocess.run(('git',) + a, cwd=t.root, env=e, check=True, capture_output=True, timeout=60)
        origin = os.path.join(t.dir, 'origin.git')
        git('init', '-q', '--bare', '-b', 'master', origin)
        git('init', '-q', '-b', 'master', '.')
        git('add', '-A')
        git('commit', '-qm', 'x')
        git('remote', 'add', 'origin', origin)
        git('push', '-q', 'origin', 'master')
        for code in GATE:
            for readme in [code] + ([v for v in GATE if v != code] if case['mismatch'] else [GATE[(GATE.index(code) + 1) % len(GATE)], master]):
                t.set(text(code), text(readme))
                r = subprocess.run([sys.executable, os.path.join(t.root, gate)], cwd=t.root, env=e, capture_output=True, text=True, timeout=60)
                want = unit(code, master)
                ctx.add('transitions')
                ctx.add('traces_validated_against_impl')
                if readme != code:
                    want = False
                if want is not None:
                    ctx.outcome('gate %s' % ('open' if want else 'closed'))
                    ctx.true('gate code=%s README=%s master=%s' % (text(code), text(readme), text(master)), (r.returncode == 0) == want,
                             'exit %d, should %s (%s)' % (r.returncode, 'pass' if want else 'fail', r.stderr[-200:]))
        ctx.add('states', len(GATE))
        ctx.sample = dict(master=text(master))
    finally:
        t.close()
