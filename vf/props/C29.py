"""Japanese kana."""
import random
from vf import charted as C, gen, kana, words as W
from vf.core import tx, expect, subseed
from vf.phon import *

ID = 'C29'
LEVEL = 'exploration'
RULE = 'a case is a text of generated words for one kana and one of the two modes; each distinct (kana, mode, word) counts once'
ASSUMPTIONS = ['kana of each syllable as in spec/kana.json']
SHRINK = ('words', 'seps')
PROFILE = gen.Profile(gen.CALL, 14, cluster=2, om=False)
SEPS = [' ', '\n', ' ', ', ', '। ', '॥\n', '? ']
PUNCT = str.maketrans({',': '、', '।': '。', '॥': '。。'})
SOURCES = ['Devanagari'] * 4 + ['Telugu', 'Kannada', 'Gujarati', 'Oriya', 'Malayalam']


def jobs(tier, seed):
    big = tier == 'thorough'
    js = []
    for s in ('Hiragana', 'Katakana'):
        for nat in (False, True):
            js.append({'kind': 'sweep', 'script': s, 'nat': nat, 'big': big, 'seed': subseed(seed, s, nat)})
            js += [{'kind': 'rand', 'script': s, 'nat': nat, 'n': 400 if big else 40, 'seed': subseed(seed, s, nat, k)} for k in range(8 if big else 2)]
            js.append({'kind': 'hyp', 'script': s, 'nat': nat, 'n': 1000 if big else 40, 'seed': subseed(seed, s, nat, 'h')})
    return js


def sweep(big, rng):
    for v in range(-1, 14):
        for m in [''] + MARKS if v >= 0 else ['']:
            for c in gen.CALL:
                yield [[[c], v, m]]
                yield [[['म'], 0, m], [[c], v, '']]
            if v >= 0:
                yield [[[], v, m]]
                yield [[[], v, m], [['क'], 0, '']]
    for c in gen.CALL:
        for d in gen.CALL:
            for v in range(14) if big else (0, rng.randrange(1, 14)):
                yield [[[c, d], v, '']]
            yield [[['क'], rng.randrange(14), rng.choice([''] + MARKS)], [[c, d], rng.randrange(14), '']]
            yield [[[c], rng.randrange(14), rng.choice([''] * 3 + MARKS)], [[d], rng.randrange(-1, 14), '']]


def run_job(job, rec):
    rng = random.Random(job['seed'])
    s, nat = job['script'], job['nat']
    keys = lambda ws: [s + str(nat) + str(w) for w in ws]

    def case(ws, src='Devanagari', seps=('\n',)):
        return {'script': s, 'nat': nat, 'src': src, 'words': ws, 'seps': list(seps)}
    if job['kind'] == 'sweep':
        ws = [w for w in sweep(job['big'], rng) if kana.ok(w, nat)]
        for i in range(0, len(ws), 100):
            b = ws[i:i + 100]
            rec.check(case(b), True, keys(b))
    elif job['kind'] == 'rand':
        for _ in range(job['n']):
            src = rng.choice(SOURCES)
            b = [w for w in W.rand_words(rng, rng.choice((3, 60, 60)), PROFILE) if not isinstance(w, str) and kana.ok(w, nat) and W.usable([w], [src])]
            if b:
                rec.check(case(b, src, [rng.choice(SEPS) for _ in range(5)]), True, keys(b))
    else:
        def to_case(ints):
            b = [w for w, _ in gen.decode(ints, PROFILE) if kana.ok(w, nat)]
            return case(b) if b else None
        rec.hyp(gen.strategy(1, 24), to_case, job['n'], job['seed'], sub=lambda c: keys(c['words']))


def judge(case):
    s, nat, ws, seps = case['script'], case['nat'], case['words'], case['seps'] or [' ']
    d = W.text(case['src'], ws, seps)
    expect(tx(case['src'], s, d, nat), C.join([kana.render(s, w, nat) for w in ws], [x.translate(PUNCT) for x in seps]), '%s->%s of %r' % (case['src'], s, d[:60]))
