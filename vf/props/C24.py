"""Library of Congress romanization of ten Indic scripts: spelled by its tables, and read back."""
import random, re
from vf import model, words as W, gen
from vf.core import expect, subseed, tx
from vf.phon import MARKS, NUKTA

ID = 'C24'
LEVEL = 'exploration'
RULE = 'a case is a text of words romanized from one of the ten scripts or read back into it; each distinct (script, direction, text) counts once'
ASSUMPTIONS = ['the ISO 15919 chart of C03 plus the differences of the ALA-LC tables listed in the module']
SHRINK = ('words', 'seps')
CLASS = {c: n for cs, n in (('कखगघ', 'ङ'), ('चछजझ', 'ञ'), ('टठडढ', 'ण'), ('तथदध', 'न'), ('पफबभ', 'म')) for c in cs}
SHORT = ('Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Oriya', 'Gurmukhi')       # e and o are long, ĕ and ŏ short
SUB = {'Assamese': {'ṣ': 'sh', 'v': 'w'}, 'Bengali': {'ṣ': 'sh'}, 'Gujarati': {'ṣ': 'sh', 'æ': 'ê', 'ġ': 'g͟h'}, 'Devanagari': {'æ': 'ê', 'ḷ': 'ḻ', 'ḻ': 'l̳', 'ġ': 'g͟h'},
       'Oriya': {'ṣ': 'sh', 'v': 'w'}, 'Kannada': {'ḻ': 'l̤'}, 'Telugu': {'ḻ': 'l̤'}, 'Sinhala': {'æ': 'ă'}, 'Malayalam': {}, 'Gurmukhi': {'ś': 'sh', 'v': 'w', 'ḻ': 'l̳', 'æ': 'ê', 'ġ': 'g͟h'}}
GAPS = {'ऴ': 'ḻ', 'ऱ': 'ṟ'}                # stand-ins for khanda ta: one the word does not hold
KHANDA = ('Assamese', 'Bengali')          # ৎ is ṯ, and anusvara is not assimilated


def homorganic(s, w):
    """Anusvara before a stop is written as the nasal of its class."""
    w = [[list(on), v, m] for on, v, m in w]
    if s not in KHANDA:
        for a, b in zip(w, w[1:]):
            n = b[0] and (CLASS.get(b[0][0]) or (b[0][0] == NUKTA[1] or b[0][0] == NUKTA[2] and 'ġ' in SUB[s]) and 'ङ')
            if a[2] == MARKS[1] and n:
                a[2] = ''
                b[0].insert(0, n)
    return w


def loc(s, w):
    g = ([x for x in GAPS if not any(x in on for on, v, m in w)] or ['ऱ'])[-1]
    if s in KHANDA:
        w = [[[g] + list(on[1:]) if on and model.render(s, [[on, v, m]])[0] == 'ৎ' else on, v, m] for on, v, m in w]
    y = model.render('ISO', homorganic(s, w))
    if s in KHANDA and any(g in on for on, v, m in w):
        y = y.replace(GAPS[g], 'ṯ')
    y = y.replace('ṁ', 'ṃ')
    t = dict(SUB[s])
    if s in SHORT:
        t.update({'ē': 'e', 'ō': 'o', 'e': 'ĕ', 'o': 'ŏ'})
    if s != 'Malayalam':
        t[':'] = '_'
    y = re.sub('m̐(?=[kgcjṭḍtdpb])', 'n̐', ''.join(t.get(c, c) for c in y))
    return y.replace('ṟṟ', 'ṯṯ') if s == 'Malayalam' else y


def ok(s, w):
    if isinstance(w, str):
        return False
    on2 = [(a, b) for on, v, m in w for a, b in zip(on, on[1:])]
    if s == 'Gurmukhi' and any(m == MARKS[0] or 'ळ' in on for on, v, m in w):
        return False                      # has tippi in the place of candrabindu, and a letter of its own for this l
    if s in KHANDA and all(any(x in on for on, v, m in w) for x in GAPS):
        return False
    if ('स', 'ह') in on2 and 'sh' in SUB[s].values() or s == 'Bengali' and {('र', 'ब'), ('त', 'ब')} & set(on2):
        return False                      # s before h spells sh; v is written for a subjoined b after r; a joiner is lost after khanda ta
    return True


def text(f, ws, seps):
    o = ''
    for k, w in enumerate(ws):
        o += (seps[k % len(seps)] if k and seps else '') + f(w)
    return o


def jobs(tier, seed):
    big = tier == 'thorough'
    out = []
    for s in SUB:
        for name, parts in (('cv', 1), ('v', 2), ('ccv', 8), ('mcv', 4), ('cc_mid', 4)):
            for k in range(parts if big else 1):
                out.append({'kind': 'sweep', 'script': s, 'name': name, 'part': k if big else subseed(seed, s, name) % parts, 'parts': parts, 'seed': subseed(seed, s, name, k)})
        out.append({'kind': 'rand', 'script': s, 'n': 800 if big else 60, 'seed': subseed(seed, s)})
        out.append({'kind': 'hyp', 'script': s, 'n': 400 if big else 40, 'seed': subseed(seed, s, 'h')})
    return out


def run_job(job, rec):
    s = job['script']
    W.run_words(job, rec, [s, 'ISO'], lambda ws, seps: {'script': s, 'words': ws, 'seps': [x if x.isspace() else ' ' for x in seps]}, W.FULL,
                usable_fn=lambda ws: [w for w in W.usable(ws, [s, 'ISO']) if ok(s, w)])


def judge(c):
    s, ws, seps = c['script'], c['words'], c['seps']
    x = text(lambda w: model.render(s, w), ws, seps)
    y = text(lambda w: loc(s, w), ws, seps)
    expect(tx(s, 'RomanLoC', x), y, '%s->RomanLoC of %r' % (s, x[:60]))
    z = text(lambda w: model.render(s, homorganic(s, w)), ws, seps)
    expect(tx('RomanLoC', s, y), z.replace('\u0c00', '\u0c01') if s == 'Telugu' else z, 'RomanLoC->%s of %r' % (s, y[:60]))
