"""Writes /verif/MANIFEST.json from mc/registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc.registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    c = CHECKS.get(p['id'])
    if c:
        note = c['note'] + ' Covers: ' + c['rule'] + '.'
        if c['assumptions']:
            note += ' Trusts: ' + '; '.join(c['assumptions']) + '.'
        checks.append(dict(property=p['id'], quick_cmd='bash run.sh %s' % p['id'], thorough_cmd='VERIF_TIER=thorough bash run.sh %s' % p['id'],
                           technique=c['technique'], level=c['level'], level_note=note))
out = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
           not_applicable=[dict(property=p['id'], reason='no check yet') for p in props if p['id'] not in CHECKS],
           notes='No hooks in /repo: the checks intercept only the TensorFlow API the library calls. KNOWN_FINDINGS.txt lists fixed and known findings.')
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', [x['property'] for x in out['not_applicable']])
