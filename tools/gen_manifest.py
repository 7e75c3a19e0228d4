"""Writes MANIFEST.json: every property with a module in mc/checks is claimed."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / 'properties.jsonl').read_text().splitlines() if x.strip()]
TECH = {}
NOTE = {}
NA = {}
exec((V / 'tools' / 'manifest_notes.py').read_text())
checks, na = [], []
for p in props:
    i = p['id']
    if (V / 'mc' / 'checks' / f'{i.lower()}.py').exists() and i not in NA:
        checks.append(
            {
                'property': i,
                'quick_cmd': f'./check.sh {i} quick',
                'thorough_cmd': f'./check.sh {i} thorough',
                'evidence_file': f'evidence/{i}.json',
                'technique': TECH.get(i, TECH_DEFAULT),
                'level': 'model_checking',
                'level_note': NOTE.get(i, NOTE_DEFAULT),
            }
        )
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'claimed', len(na), 'not')
