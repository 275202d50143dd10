"""The other linear Brahmic (and related) scripts: charted spelling, exact reading back where the script is lossless, and stable
reading back elsewhere."""
import random
from vf import charted as C, gen, readback as R, stack, words as W
from vf.core import tx, expect, subseed
from vf.phon import DIGITS

ID = 'C05'
LEVEL = 'exploration'
RULE = ('a case is one text of words (random, Hypothesis-generated, or swept over letters x vowels x marks and all two-letter clusters) '
        'converted Devanagari->script, script->Devanagari and again; each distinct (script, word) counts once as non-trivial')
ASSUMPTIONS = ['letter charts in spec/letters_raw.json', 'Devanagari dandas and digits of a script as in its chart']
SHRINK = ('words', 'seps')
SCRIPTS = ('ShanLoC BengaliRaBa RomanSemitic Nandinagari Pallava Dogra Ranjana GranthaGrantamil Multani Mahajani Hanunoo Siddham '
           'SiddhamDevanagari GranthaPandya Vatteluttu Khudawadi Bhaiksuki Sharada Newa Takri SylotiNagri Tirhuta Modi Kaithi Kharoshthi '
           'TamilBrahmi Grantha Tagalog BatakKaro BatakPakpak BatakToba BatakManda Brahmi').split()
EXACT = 'BengaliRaBa Ranjana GranthaGrantamil SiddhamDevanagari Sharada Newa Tirhuta Grantha Brahmi'.split()
CORE = gen.Profile(avagraha=True, om=False)
FULL = gen.Profile(gen.CALL, 18, avagraha=True, om=False)
NODIGITS = ('Kharoshthi',)


def prof(s):
    return CORE if s in ('Sharada', 'Grantha') else FULL


def ok(s, w):
    if isinstance(w, str):
        return s not in NODIGITS
    if C.kind(s) == 'stack':
        return stack.ok(s, w)
    if s == 'Mahajani':     # has a ligature of its own for shri
        return not any(v == 3 and on[-2:] == ['श', 'र'] for on, v, m in w)
    return True


def core_word(w):
    return isinstance(w, str) or all(v < 14 and all(c in gen.C33 for c in on) and not (not on and m and v in (12, 13)) for on, v, m in w)


def jobs(tier, seed, scripts=None, p=None):
    out = []
    big = tier == 'thorough'
    for s in scripts or SCRIPTS:
        for name, parts in (('cv', 1), ('v', 2), ('ccv', 8), ('cc_mid', 4), ('mcv', 4)):
            use = range(parts) if big else [subseed(seed, s, name) % parts]
            if not big and name == 'ccv':
                use = [(use[0] + k) % parts for k in range(5)]
            out += [{'kind': 'sweep', 'script': s, 'name': name, 'part': k, 'parts': parts, 'seed': subseed(seed, s, name, k)} for k in use]
        for k in range(4 if big else 1):
            out.append({'kind': 'rand', 'script': s, 'n': 1500 if big else 250, 'seed': subseed(seed, s, 'rand', k)})
        out.append({'kind': 'hyp', 'script': s, 'n': 800 if big else 120, 'seed': subseed(seed, s, 'hyp')})
    return out


def run_job(job, rec, p=None):
    s = job['script']
    W.run_words(job, rec, [s], lambda ws, seps: {'script': s, 'words': ws, 'seps': seps}, p or prof(s), usable_fn=lambda ws: [w for w in ws if ok(s, w)])


def judge(case):
    s, ws, seps = case['script'], case['words'], case['seps']
    d = C.dev(ws, seps)
    t = tx('Devanagari', s, d)
    if s in SCRIPTS or s in stack.FORWARD:
        expect(t, C.text(s, ws, seps), 'Devanagari->%s of %r' % (s, d[:60]))
    if s in EXACT:
        g = [w for w in ws if core_word(w) and not (s == 'Brahmi' and not isinstance(w, str) and any(x[1] == -2 for x in w))]
        d2 = C.dev(g, seps)
        t2 = C.text(s, g, seps)
        expect(tx(s, 'Devanagari', t2), d2, '%s->Devanagari of %r' % (s, t2[:60]))
    if s in R.T:
        g = [w for w in ws if R.ok(s, w)]
        t2 = C.text(s, g, seps)
        rs = [x.replace('।', '॥') for x in seps] if C.sym(s, '।') == C.sym(s, '॥') else seps    # one sign for both
        expect(tx(s, 'Devanagari', t2), C.join([R.canon(s, w) for w in g], rs), '%s->Devanagari of %r' % (s, t2[:60]))
    if (s in SCRIPTS and s not in ('RomanSemitic', 'GranthaGrantamil', 'ShanLoC')) or s in stack.STABLE:
        u = tx(s, 'Devanagari', t)
        expect(tx('Devanagari', s, u), t, '%s->Devanagari->%s of %r (via %r)' % (s, s, t[:60], u[:60]))
