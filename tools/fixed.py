"""Adds a 'fixed' entry: tools/fixed.py PROPERTY COMMIT TEXT"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p, encoding='utf8'))
a, b, c = sys.argv[1:4]
k.append({'property': a, 'status': 'fixed', 'commit': b, 'case': None, 'what': 'fixed: property=%s %s %s' % (a, b, c)})
with open(p, 'w', encoding='utf8') as f:
    json.dump(k, f, ensure_ascii=False, indent=1)
    f.write('\n')
