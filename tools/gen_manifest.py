"""Write MANIFEST.json from the check modules present in mc/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc import core
core.setup_paths()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', i.lower() + '.py')):
        m = importlib.import_module('mc.' + i.lower())
        checks.append(dict(property=i, quick_cmd=f'./run {i} quick', thorough_cmd=f'./run {i} thorough',
                           evidence_file=f'evidence/{i}.json', level=m.LEVEL, technique=m.TECHNIQUE, level_note=m.NOTE))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
