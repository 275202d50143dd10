"""Itrans: text between ## and ## is left as it is, the rest is converted as by itself."""
import random
from vf import core, gen, model, spellings as S, words as W
from vf.core import tx, expect, subseed

ID = 'C18'
LEVEL = 'exploration'
RULE = 'a case is a text of Itrans words with escaped pieces between them; each distinct (target, escaped piece) counts once'
ASSUMPTIONS = ['Itrans spellings as in vf/spellings.py', 'the conversion of the words is that of the reference model; with nativization that of the library for the words alone']
SHRINK = ('parts',)
PROFILE = gen.Profile(gen.C33, 14, cluster=3, om=False)
TARGETS = ['Devanagari'] * 3 + ['Telugu', 'Kannada', 'Gujarati', 'Malayalam', 'Bengali', 'Sinhala', 'Tamil', 'Oriya', 'Gurmukhi', 'IAST', 'ISO', 'HK', 'Velthuis', 'WX']
ASCII = ''.join(map(chr, range(32, 127)))
BITS = ['OM', 'aa', 'oo', 'ee', 'x', 'w', 'J', '.n', '.m', '.h', 'kS', 'dny', '^e', 'RRi', 'N^', 'GY', 'c.o', '|', '||', '.', '..', "\\'", '\\_', 'AUM', '_', '~N', '#', 'Ch. 3', 'http://x.org/a?b=1&c=2', 'à', 'é', '中文', 'Кириллица', '<b>', '</b>']


def jobs(tier, seed):
    big = tier == 'thorough'
    js = [{'kind': 'rand', 'n': 400 if big else 90, 'seed': subseed(seed, k)} for k in range(40 if big else 8)]
    js += [{'kind': 'hyp', 'n': 400 if big else 60, 'seed': subseed(seed, 'h', k)} for k in range(8)]
    return js


def escaped(rng):
    k = rng.randrange(3)
    if k == 0:
        t = ''.join(rng.choice(ASCII) for _ in range(rng.randrange(1, 12)))
    elif k == 1:
        t = ''.join(rng.choice(BITS) + rng.choice(['', ' ', 'a']) for _ in range(rng.randrange(1, 4)))
    else:
        t = rng.choice(['Book about Sheep', 'Rotterdam, Ch. x1', 'New York', 'AUM', 'kShetra', 'x', '1.2|3', 'a.b', 'Oz'])
    while '##' in t:
        t = t.replace('##', '#')
    return t.strip('#') or 'a'


def build(rng, ws):
    """[[words], escaped, touching]: words are followed by the escaped piece."""
    parts = []
    while ws:
        k = rng.randrange(0, 3)
        a, ws = ws[:k], ws[k:]
        e = escaped(rng)
        parts.append([[[w, S.roman('Itrans', w, rng)] for w in a], e, rng.choice(['', ' ', ' ', '\n'])])
        if k == 0 and rng.random() < 0.5:
            break
    return parts


def run_job(job, rec):
    def make(rng, ws):
        tgt = rng.choice(TARGETS)
        nat = rng.random() < 0.25 and tgt in W.INDIC
        ws = [w for w in ws if not isinstance(w, str) and S.ok('Itrans', w) and W.usable([w], ['Itrans', tgt])]
        p = build(rng, ws)
        return {'tgt': tgt, 'nat': nat, 'parts': p} if p else None
    keys = lambda c: [c['tgt'] + e for a, e, g in c['parts']]
    if job['kind'] == 'rand':
        rng = random.Random(job['seed'])
        for _ in range(job['n']):
            c = make(rng, W.rand_words(rng, rng.choice((2, 6, 25)), PROFILE))
            if c:
                rec.check(c, True, keys(c))
    else:
        def to_case(ints):
            return make(random.Random(str(ints)), [w for w, _ in gen.decode(ints, PROFILE)])
        rec.hyp(gen.strategy(1, 10), to_case, job['n'], job['seed'], sub=keys)


def judge(case):
    tgt, nat = case['tgt'], case['nat']
    src = exp = ''
    for ws, e, g in case['parts']:
        src += ' '.join(t for w, t in ws) + (g if ws else '') + '##' + e + '##' + g
        c = ' '.join(t for w, t in ws)
        c = tx('Itrans', tgt, c, nat) if nat and c else ' '.join(model.render(tgt, w) for w, t in ws)
        exp += c + (g if ws else '') + e + g
    expect(tx('Itrans', tgt, src, nat), exp, 'Itrans->%s%s of %r' % (tgt, ' (nativize)' if nat else '', src[:80]))
