"""spec/codes.json: what every script code, language code and combination resolves to (independent resolver over the yaml tables of the audited tree)."""
import json, os, sys, yaml
B = '/repo/aksharamukha/yaml/'
d = yaml.safe_load(open(B + 'aksharamukha-scripts.yaml', encoding='utf8'))
w = yaml.safe_load(open(B + 'wikitra2-data.yaml', encoding='utf8'))
L = {k: [x.strip().lower() for x in v.get('lang', '').split(',') if x.strip()] for k, v in d.items()}
S = {k: v['script'] for k, v in d.items()}


def pop(k):
    return w.get(S[k], {}).get(d[k]['lang'].split(',')[0], {}).get('population', 0) if L[k] else 0


script, lang, combo = {}, {}, {}
for t in sorted(set(S.values())):
    script[t] = max((pop(k), k) for k in d if S[k] == t)[1]
for t in ('Latn', 'en', 'eng'):
    script[t] = 'ISO'
script['Syrc'] = script['Syre']
for t in sorted({x for v in L.values() for x in v}):
    lang[t] = max((len(w.get(S[k], ' ')), k) for k in d if t in L[k])[1]
    for s in sorted({S[k] for k in d if t in L[k]}):
        combo[t + '-' + s] = max(k for k in d if t in L[k] and S[k] == s)
for t in ('sa', 'san', 'pi', 'pli'):
    lang[t] = 'Devanagari'
for t in ('la', 'en', 'eng'):
    lang[t] = 'ISO'
sa = {}
for s in sorted(set(S.values())):
    sa[s] = [k for k in d if S[k] == s][-1]
del script['Zzzz']
# no statement about ties in popularity, nor about sa-<code> for codes of several scripts
for t in set(S.values()):
    m = sorted((pop(k) for k in d if S[k] == t), reverse=True)
    if len(m) > 1 and m[0] == m[1]:
        print('tie', t, m, script.pop(t, None))
    if len(m) > 1:
        sa.pop(t)
for t in list(lang):
    m = sorted((len(w.get(S[k], ' ')) for k in d if t in L[k]), reverse=True)
    if len(m) > 1 and m[0] == m[1] and t not in ('pi', 'pli', 'san'):
        print('tie', t, m, lang.pop(t))
for t in list(combo):
    if t.endswith('Zzzz'):
        del combo[t]
import langcodes
names = {}
for t in lang:
    try:
        n = langcodes.Language.get(t).display_name()
        c = str(langcodes.find(n))
    except LookupError:
        continue
    if c in lang:
        names[n] = lang[c]
out = {'script': script, 'lang': lang, 'combo': combo, 'sa': sa, 'names': names}
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'codes.json'), 'w', encoding='utf8'), ensure_ascii=False, indent=0, sort_keys=True)
