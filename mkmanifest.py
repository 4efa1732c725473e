"""Writes MANIFEST.json from the rule modules which exist."""
import importlib, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'engine'))
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    try:
        m = importlib.import_module('rules.' + p.lower())
    except ModuleNotFoundError:
        na.append({'property': p, 'reason': 'no check has been built yet'})
        continue
    checks.append({
        'property': p,
        'quick_cmd': f'python3 engine/check.py {p} --tier quick',
        'thorough_cmd': f'python3 engine/check.py {p} --tier thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': m.TECHNIQUE, 'level': m.LEVEL, 'level_note': m.NOTE,
    })
json.dump({'version': 1, 'setup_cmd': 'cd driver && RUSTUP_TOOLCHAIN=nightly cargo build --offline --quiet',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. known_findings.json lists the defects repaired by "fix:" commits; none is left unrepaired.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
