"""Writes MANIFEST.json: every property with a check in checks/ is claimed, the rest are listed with a reason"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': 'random schemas, values and modes; round trip through JSON text',
    'C02': 'random schemas and near-valid values against an independent reference model',
    'C03': 'random schemas and mutated messages against an independent reference model',
}
PENDING = {}
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(R, 'checks', i.lower() + '.py')):
        src = open(os.path.join(R, 'checks', i.lower() + '.py')).read()
        doc = src.split('"""')[1].strip() if src.startswith('"""') else p['title']
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} --tier quick', 'thorough_cmd': f'./check.sh {i} --tier thorough',
                       'technique': 'property-based testing: ' + ' '.join(doc.split())[:220], 'level': 'exploration',
                       'level_note': 'generated cases only, seeded by VERIF_SEED; the evidence file counts cases, non-trivial cases and labels; no exhaustive bound is claimed'})
    else:
        na.append({'property': i, 'reason': 'not claimed: no check has been built for it yet'})
m = {'version': 1, 'setup_cmd': './check.sh --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
