import sys, json
sys.path.insert(0, '/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vf.core import api
from vf.phon import *
A = api()
from aksharamukha import GeneralMap as GM
out = {}
for S in ['Devanagari'] + [s for s in GM.IndicScripts + GM.LatinScripts if s not in ('Devanagari', 'RomanLoC')]:
    for nat in (False, True):
        cv = (lambda t: t) if (S == 'Devanagari') else (lambda t: A.convert('Devanagari', S, t, nat))
        rom = S in GM.LatinScripts
        ka, k = cv('क'), cv('क्')
        a = cv('अ')
        d = {'rom': rom}
        if rom:
            base = ka[:-len(a)] if a and ka.endswith(a) else None
            d['cons'] = {c: (cv(c)[:-len(a)] if a and cv(c).endswith(a) else None) for c in CONS + NUKTA}
        else:
            base = ka
            d['cons'] = {c: cv(c) for c in CONS + NUKTA}
        d['vow'] = {v: cv(v) for v in VOWELS}
        sub = lambda x: x[len(base):] if base is not None and x.startswith(base) else None
        d['sign'] = {s: sub(cv('क' + s)) for s in SIGNS}
        d['vir'] = sub(k)
        d['mark'] = {m: cv('क' + m)[len(ka):] if cv('क' + m).startswith(ka) else None for m in MARKS}
        d['other'] = {x: cv(x) for x in DIGITS + [AVAGRAHA, DANDA, DDANDA]}
        out.setdefault(S, {})['nat' if nat else 'raw'] = d
json.dump(out, open('/tmp/x/letters.json', 'w'), ensure_ascii=False, indent=0)
