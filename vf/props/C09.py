"""Nukta letters in the scripts that stack consonants, and their reading back."""
import json, os, random
from unicodedata import normalize
from vf import charted as C, gen, model, readback as R, stack, words as W
from vf.core import tx, expect, subseed
from vf.phon import *

ID = 'C09'
LEVEL = 'exploration'
RULE = 'a case is a text of generated words that all contain a nukta letter, for one script; each distinct (script, word) counts once'
ASSUMPTIONS = ['forms of the nukta letters in spec/nukta.json']
SHRINK = ('words', 'seps')
FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'spec', 'nukta.json')
L = NUKTA + ['\u0934', '\u0931', '\u0929', '\u0933']
FULL = 'Tibetan TibetanLoC Balinese Javanese DivesAkuru MasaramGondi Khojki TamilExtended'.split()
_n = None
BASE = dict(zip(L, 'कखगजडढफयळरनल'))


def table():
    global _n
    if _n is None:
        with open(FILE, encoding='utf8') as f:
            _n = json.load(f)
        ch = stack.charts()
        for s, d in _n.items():
            b = ch[s]['base']
            d['same'] = {k: x for k, x in BASE.items() if b.get(x) and b[x] == d[k][0] and (ch[s]['sub'].get(x) == d[k][1])}
            if s in ch:
                ch[s]['base'].update({k: d[k][0] for k in L if d[k][0]})
                ch[s]['sub'].update({k: d[k][1] for k in L if d[k][1]})
                lig = ch[s]['lig']
                for k, x in BASE.items() if s in FULL else ():
                    if k in d['same']:
                        continue
                    if 'रक' in lig and x not in ('य' if s == 'DivesAkuru' else '', 'र'):                                                   # repha
                        lig['र' + k] = lig['रक'].replace(b['क'], d[k][0])
                    for c in gen.C33:
                        if s == 'Khojki':
                            lig[k + c] = d[k][0] + '\U00011235' + b[c]
                        elif d[k][0].startswith(b.get(x, '-')):
                            if x != 'र' and x + c in lig and c != x and lig[x + c].startswith(b[x]):
                                lig[k + c] = d[k][0] + lig[x + c][len(b[x]):]
                            if c + x in lig and c != 'र' or (c, x) == ('र', 'य') and s.startswith('Tib'):
                                lig[c + k] = lig[c + x] + d[k][0][len(b[x]):]
    return _n


PROFILE = gen.Profile(gen.C33 + L, cluster=2, om=False)


def has(w):
    return not isinstance(w, str) and any(c in L for on, v, m in w for c in on)


def base(s, w):
    d = table()[s]['same']
    return [[[d.get(c, c) for c in on], v, m] for on, v, m in w]


def tamil(w):
    """Extended Tamil: the dot follows the vowel sign or the virama of its letter."""
    ch = stack.charts()['TamilExtended']
    o = ''
    for on, v, m in w:
        if not set(on) & set(L):
            o += stack.render('TamilExtended', [[on, v, m]])
            continue
        for c in on[:-1]:
            o += ch['base'][c].replace('·', '') + '\u0d4d\u200c' + '·' * ('·' in ch['base'][c])
        c = on[-1]
        t = stack.render('TamilExtended', [[['क'], v, '']]).replace(ch['base']['क'], ch['base'][c].replace('·', ''), 1)
        o += t + '·' * ('·' in ch['base'][c]) + ch['mark'][m]
    return o


def text(s, ws, seps):
    ws = [base(s, w) for w in ws]
    return C.join([tamil(w) for w in ws], seps) if s == 'TamilExtended' else C.text(s, ws, seps)


def ok(s, w):
    d = table()[s]
    w0, w = w, base(s, w)
    if not stack.ok(s, w):
        return False
    if s == 'Khojki' and any(len(on) > 1 and on[1] in L and '\U00011237' in stack.charts()[s]['lig'].get(on[0] + BASE.get(on[1], ''), '') for on, v, m in w):
        return False    # doubling sign
    if s == 'Khojki' and any(len(on) > 1 and set(on) <= set(L) for on, v, m in w):
        return False
    if s == 'TamilExtended' and any(v == 13 and set(on) & set(NUKTA + L[9:11]) for on, v, m in w0):
        return False
    if s == 'LaoPali' and any(y[1] > 9 and (x[2] or y[2]) and set(y[0]) & set(L) for x, y in zip([[[], 0, '']] + w0, w0)):
        return False
    if s == 'LaoPali' and any(x[1] == 11 and NUKTA[7] in y[0] for x, y in zip(w0, w0[1:])):
        return False
    if s not in FULL and any(set(on) & set(L) and (len(on) > 1 or v < 0 or v in (1, 12, 13) and 'tall' in stack.charts()[s]) for on, v, m in w0):
        return False    # no nukta sign: the letter by itself only
    if s == 'Thai' and any(NUKTA[5] in on for on, v, m in w0):
        return False    # two letters
    return all(c not in L or d[c][0] and (i == 0 or d[c][1]) for on, v, m in w for i, c in enumerate(on))


def jobs(tier, seed):
    big = tier == 'thorough'
    return [{'script': s, 'n': 40 if big else 5, 'seed': subseed(seed, s, k)} for s in sorted(table()) for k in range(4 if big else 1)]


def run_job(job, rec):
    rng = random.Random(job['seed'])
    s = job['script']
    sw = [[[[c], v, m]] for c in L for v in range(-1, 14) for m in ('', 'ँ', 'ं', 'ः') if not (v < 0 and m)]
    sw += [[[list(x), v, '']] for c in L for b in gen.C33 for x in ((c, b), (b, c)) for v in ((0, rng.randrange(1, 14)) if job['n'] < 20 else range(-1, 14))]
    sw += [[[[c], v, '']] + [[[b], rng.randrange(-1, 14), '']] for c in L for b in rng.sample(gen.C33 + L, 8) for v in (0, 4)]
    sw = [w for w in sw if ok(s, w)]
    for i in range(0, len(sw), 40):
        ws = sw[i:i + 40]
        rec.check({'script': s, 'words': ws, 'seps': [' ']}, True, [s + str(w) for w in ws])
    for _ in range(job['n']):
        ws = []
        while len(ws) < 30:
            ws += [w for w in W.rand_words(rng, 60, PROFILE) if has(w) and ok(s, w)]
        rec.check({'script': s, 'words': ws, 'seps': [' ']}, True, [s + str(w) for w in ws])


def canon(s, w):
    d, m = table()[s], R.T[s]
    w = base(s, w)
    if not R.ok(s, [([('क' if c in L else c) for c in on], v, k) for on, v, k in w]) or s in R.NOVIR:
        return None
    return model.render('Devanagari', [([d[c][2] if c in L else m['cons'][c] for c in on], (m['sign'] if on else m['vow'])[str(v)], m['mark'][k]) for on, v, k in w])


def judge(case):
    s, ws, seps = case['script'], case['words'], case['seps']
    table()
    d = C.dev(ws, seps)
    expect(tx('Devanagari', s, d), text(s, ws, seps), 'Devanagari->%s of %r' % (s, d[:60]))
    if s in R.T:
        g = [(w, canon(s, w)) for w in ws]
        g = [x for x in g if x[1] is not None]
        t = text(s, [x[0] for x in g], seps)
        expect(normalize('NFC', tx(s, 'Devanagari', t)), normalize('NFC', C.join([x[1] for x in g], seps)), '%s->Devanagari of %r' % (s, t[:60]))
