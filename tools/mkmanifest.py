"""Writes MANIFEST.json: one check per property that has a contract (run with the check's interpreter)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')
import check
cs = check.load_contracts()
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    pid = p['id']
    mine = [c for c in cs if pid in c.props]
    if not mine:
        na.append({'property': pid, 'reason': NA.get(pid, 'contracts for this property are not written yet')})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': './check --property %s --tier quick' % pid,
        'thorough_cmd': './check --property %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': LEVEL.get(pid, ('proof', ''))[1] or TECH,
        'level': LEVEL.get(pid, ('proof', ''))[0],
        'level_note': NOTES.get(pid, '') + COMMON,
    })
json.dump({'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the contracts are attached to the functions of /repo/pyproximal when their source is loaded (vf/loader.py).'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na], 'not')
