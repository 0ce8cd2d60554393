"""writes MANIFEST.json from engine/props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Static analysis of compiler MIR; see DESIGN.md. No hooks in /repo are needed.'}
for i in ids:
    s = props.PROPS.get(i)
    if s:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py --property %s --tier quick' % i,
                            'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': s['technique'], 'level': s['level'], 'level_note': s['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': props.NA.get(i, 'check not built yet')})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']], 'n/a')
