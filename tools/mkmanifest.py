"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
props = [json.loads(l) for l in open(HERE + '/properties.jsonl') if l.strip()]
checks, na = [], []
NOTE = ('Holds for every real value of the symbolic inputs, for every shape/size/configuration listed in the '
        'evidence bounds; outside them nothing is claimed. Real arithmetic stands for float64; '
        'exp/log/gammaln/arctan/ndtri are atoms with sound algebraic laws; numpy object-dtype loops are '
        'trusted to follow float loops (each path is cross-checked numerically on the real float code).')
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(HERE + '/checks/%s.py' % i.lower()):
        checks.append({
            'property': i,
            'quick_cmd': 'VERIF_TIER=quick /opt/venv/bin/python check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the real Python code + SMT (z3 nlsat), bounded',
            'level': 'model_checking',
            'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "import check; check.P.load()"',
           'checks': checks, 'not_applicable': na}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
