"""Writes properties.jsonl and MANIFEST.json from tool/props.py and the specs present."""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__)); VER = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VER, 'specs')]
from props import P
try: from props import NA
except ImportError: NA = {}
checks, na = [], []
for p in P:
    f = os.path.join(VER, 'specs', p['id'] + '.py')
    if p['id'] in NA or not os.path.exists(f):
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')}); continue
    s = importlib.import_module(p['id'])
    lvl = getattr(s, 'LEVEL', 'proof')
    checks.append({'property': p['id'], 'quick_cmd': f'python3 tool/check.py {p["id"]}', 'thorough_cmd': f'python3 tool/check.py {p["id"]} --thorough',
        'technique': getattr(s, 'TECHNIQUE', 'contracts on the real functions, extracted with the clang AST and discharged by Why3 with Z3/CVC5; executable contract for replay and for the functions out of reach'),
        'level': lvl, 'level_note': getattr(s, 'NOTE', 'see DESIGN.md')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'tool/check.py extracts the functions under contract from /repo on every run; no hooks are needed in /repo.'}, open(os.path.join(VER, 'MANIFEST.json'), 'w'), indent=1)
with open(os.path.join(VER, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(checks), 'claimed', len(na), 'not')
