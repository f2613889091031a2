"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, V + '/bin')
from registry import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
ids = [p['id'] for p in props]
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py ' + i, thorough_cmd='python3 bin/check.py %s --thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='TLA+ specification checked with TLC, bound to the code by ' + c.get('how', 'validating traces recorded from the real code'),
            level='model_checking',
            level_note=c.get('note', 'TLC explores the design model exhaustively within its constants; the code is covered on the recorded executions only, each judged by the same operators. Trusts TLC, the drivers\' encoding, and numpy.')))
    else:
        na.append(dict(property=i, reason='Check not built yet.'))
json.dump(dict(version=1, setup_cmd='python3 bin/setup.py', hooks=dict(guard='VERIF_HOOKS', enable='No hooks are needed: the checks observe the public API, files, and audit events of the interpreter.', source_commits=[]),
    checks=checks, not_applicable=na, notes='See DESIGN.md'), open(V + '/MANIFEST.json', 'w'), indent=1)
