"""Writes properties.jsonl and MANIFEST.json from tools/props.py (kept in step by construction)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf8') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(q['title']) <= 80, q['title']
        q['quantifier'] = {'over': p['over'], 'text': p['quant']}
        q['why_tests_cant'] = p['why']
        q['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
na = {x['property'] for x in NOT_APPLICABLE}
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': 'exploration',
                   'level_note': p['note']} for p in PROPS if p['id'] not in na],
       'not_applicable': NOT_APPLICABLE,
       'notes': 'No hooks in /repo: every check drives the public API (convert, process, auto_detect, transliterate_file, the code tables). '
                'Checks import the package from /repo\'s working tree with byte-code kept in a scratch directory.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf8') as f:
    json.dump(man, f, ensure_ascii=False, indent=1)
    f.write('\n')
