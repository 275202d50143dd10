"""The remaining scripts: alphabets, romanizations and scripts with joining rules of their own."""
import random
from unicodedata import normalize
from vf import charted as C, gen, rest, words as W
from vf.core import tx, expect, subseed
from vf.phon import *

ID = 'C34'
LEVEL = 'exploration'
RULE = 'a case is a text of generated words for one script; each distinct (script, word) counts once'
ASSUMPTIONS = ['letters of each script as in spec/rest.json and spec/letters_raw.json']
SHRINK = ('words', 'seps')
PROFILE = gen.Profile(gen.CALL, 14, cluster=2, om=False)
SPACE = {'OldPersian': '\U000103D0', 'PhagsPa': ' ᠂ '}
SEPS = [' ', '\n', ' ', '  ', '\n\n']
SOURCES = ['Devanagari'] * 3 + ['Telugu', 'Kannada', 'IAST', 'HK', 'Gujarati', 'ISO', 'Oriya', 'Malayalam', 'Velthuis', 'WX']
# words whose spelling is known to be wrong (spec/../known_findings.json)
KNOWN = [('Buhid', [[['क'], 1, ''], [['क'], 1, '']]), ('Tagbanwa', [[['क'], 1, ''], [['क'], 1, '']]), ('KhomThai', [[['श'], 10, '']]), ('OldPersian', [[['घ'], 4, '']])]


def jobs(tier, seed):
    big = tier == 'thorough'
    js = [{'kind': 'known', 'seed': seed}]
    for s in rest.SCRIPTS:
        js.append({'kind': 'sweep', 'script': s, 'big': big, 'seed': subseed(seed, s, 'sw')})
        js += [{'kind': 'rand', 'script': s, 'n': 150 if big else 14, 'seed': subseed(seed, s, k)} for k in range(8 if big else 1)]
        js += [{'kind': 'hyp', 'script': s, 'n': 400 if big else 12, 'seed': subseed(seed, s, 'h')}]
    return js


def sweep(big, rng):
    for c in gen.CALL:
        for v in range(-1, 14):
            for m in [''] + MARKS if v >= 0 else ['']:
                yield [[[c], v, m]]
    for v in range(14):
        for m in [''] + MARKS:
            yield [[[], v, m]]
            yield [[['क'], v, m], [[], rng.randrange(14), '']]
    for c in gen.CALL:
        for d in gen.CALL:
            for v in range(-1, 14) if big else (0, rng.randrange(1, 14)):
                yield [[[c, d], v, '']]
            yield [[['क'], rng.randrange(14), rng.choice([''] + MARKS)], [[c, d], rng.randrange(-1, 14), '']]
            yield [[[c], rng.randrange(14), rng.choice([''] * 3 + MARKS)], [[d], rng.randrange(-1, 14), '']]


def run_job(job, rec):
    rng = random.Random(job['seed'])
    if job['kind'] == 'known':
        for s, w in KNOWN:
            rec.check({'script': s, 'src': 'Devanagari', 'words': [w], 'seps': []}, True, [s + str(w)])
        return
    s = job['script']

    def case(ws, src='Devanagari', seps=None):
        return {'script': s, 'src': src if W.usable(ws, [src]) == ws else 'Devanagari', 'words': ws, 'seps': seps or ['\n']}
    keys = lambda ws: [s + str(w) for w in ws]
    if job['kind'] == 'sweep':
        ws = [w for w in sweep(job['big'], rng) if rest.ok(s, w)]
        for i in range(0, len(ws), 120):
            b = ws[i:i + 120]
            rec.check(case(b), True, keys(b))
    elif job['kind'] == 'rand':
        for _ in range(job['n']):
            src = rng.choice(SOURCES) if s != 'IPA' else 'Devanagari'       # to IPA each source has its own values
            b = [w for w in W.rand_words(rng, rng.choice((3, 60, 60)), PROFILE) if not isinstance(w, str) and rest.ok(s, w) and W.usable([w], [src]) and not (src in W.ROMAN and apart(w))]
            if b:
                rec.check(case(b, src, [rng.choice(SEPS) for _ in range(5)]), True, keys(b))
    else:
        def to_case(ints):
            b = [w for w, _ in gen.decode(ints, PROFILE) if rest.ok(s, w)]
            return case(b) if b else None
        rec.hyp(gen.strategy(1, 24), to_case, job['n'], job['seed'], sub=lambda c: keys(c['words']))


def text(s, ws, seps):
    return C.join([rest.render(s, w) for w in ws], [x.replace(' ', SPACE.get(s, ' ')) for x in seps or [' ']])


def apart(w):
    """Words that need a separator sign in an alphabet: romanizations do not all carry it over to another alphabet."""
    return any(i and not on or 'ह' in on[1:] for i, (on, v, m) in enumerate(w))


def judge(case):
    s, ws, seps, src = case['script'], case['words'], case['seps'], case['src']
    d = W.text(src, ws, seps)
    t = text(s, ws, seps)
    expect(normalize('NFC', tx(src, s, d)), normalize('NFC', t), '%s->%s of %r' % (src, s, d[:60]))
    if s in rest.STABLE and (s, ws[0]) not in KNOWN:
        b = tx(s, 'Devanagari', t)
        expect(normalize('NFC', tx('Devanagari', s, b)), normalize('NFC', t), '%s->Devanagari->%s of %r' % (s, s, t[:60]))
    g = [w for w in ws if rest.readable(s, w)]
    if g:
        t = text(s, g, seps)
        expect(normalize('NFC', tx(s, 'Devanagari', t)), normalize('NFC', C.dev(g, seps)), '%s->Devanagari of %r' % (s, t[:60]))
