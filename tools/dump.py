"""Run a check and summarise all violation keys (development helper)."""
import sys, importlib, re, collections
sys.path.insert(0, '/verif')
from mc import core
core.setup_paths()
mod = importlib.import_module('mc.' + sys.argv[1].lower())
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
pat = sys.argv[3] if len(sys.argv) > 3 else '.*'
if hasattr(mod, 'prepare'):
    mod.prepare(tier, 1)
cases = mod.cases(tier, 1)
known = core.load_known(mod.PID)
n = 0
out = collections.Counter()
for c, r in zip(cases, core.explore(mod, cases, tier, 1, case_timeout=getattr(mod, 'CASE_TIMEOUT', 300))[0]):
    for k, v in r['outcomes'].items():
        out[k] += v
    for k, m in r['viol']:
        if any(re.fullmatch(e['match'], k, flags=re.S) for e in known) or not re.search(pat, k, flags=re.S):
            continue
        n += 1
        if n <= 60:
            print(k, '|', m[:300])
print(n, dict(out))
