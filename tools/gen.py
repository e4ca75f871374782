#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one description (tools/meta.py)"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/tools')
import meta
with open(R + '/properties.jsonl', 'w') as f:
    for p in meta.P:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        assert len(p['title']) <= 80, p['title']
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': [], 'not_applicable': []}
for p in meta.P:
    if 'na' in p:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3-vt check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p['id'],
                            'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
m['notes'] = meta.NOTES
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
