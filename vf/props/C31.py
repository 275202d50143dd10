"""Alternative spellings and encodings accepted on input read like the standard ones."""
import random, re
from vf import charted as C, gen, model, spellings as S, words as W
from vf.core import tx, expect, subseed
from vf.phon import *

ID = 'C31'
LEVEL = 'exploration'
RULE = 'a case is a text of generated words, each letter in a random one of its spellings; non-trivial when at least one spelling is not the standard one; each distinct (source, typed word) counts once'
ASSUMPTIONS = ['spellings as in vf/spellings.py', 'letters of each script as in spec/letters_raw.json']
SHRINK = ('words', 'pairs', 'seps')
MARKED = {'{}': '^^', '()': '^', '\\_': 'q', "\\'": '#', '\\"': '$', '_h': '~h'}        # Baraha: joiners, accents, h kept apart; and their other spellings
PROFILE = gen.Profile(gen.CALL, 18)
TARGETS = ['Devanagari'] * 3 + ['Telugu', 'Kannada', 'IAST', 'ISO', 'Gujarati', 'Malayalam', 'Bengali', 'Sinhala', 'HK', 'Velthuis', 'Tamil', 'Gurmukhi', 'WX']


def jobs(tier, seed):
    big = tier == 'thorough'
    js = []
    for s in S.SOURCES:
        js += [{'kind': 'sweep', 'src': s, 'big': big, 'seed': subseed(seed, s, 'sw')}]
        js += [{'kind': 'rand', 'src': s, 'n': 150 if big else 40, 'seed': subseed(seed, s, k)} for k in range(10 if big else 1)]
        js += [{'kind': 'hyp', 'src': s, 'n': 400 if big else 25, 'seed': subseed(seed, s, 'h')}]
        if s.startswith('Baraha') or s == 'Itrans':
            js += [{'kind': 'pair', 'src': s, 'n': 600 if big else 60, 'seed': subseed(seed, s, 'p')}]
    return js


def pair(s, w, rng):
    """(standard, other) spelling of word w with joiners, accents and dandas."""
    ch = model.charts()[s]['raw']
    if s == 'Itrans':
        t = model.render(s, w)
        return [t + x for x in rng.choice([('|', '.'), ('||', '..'), (' |', ' .'), (' ||', ' ..')])]
    out = ''
    for on, v, m in w:
        for i, x in enumerate(on):
            if i and x == 'ह':
                out += '_h'
            else:
                out += (rng.choice(['{}', '()', '', '']) if i else '') + ch['cons'][x]
        if v >= 0:
            out += ch['sign'][SIGNS[v]] if on else ch['vow'][VOWELS[v]]
            out += m and ch['mark'][m]
            if rng.random() < 0.5:
                out += rng.choice(list(MARKED)[2:5])
    alt = ''
    for x in re.split('(%s)' % '|'.join(map(re.escape, MARKED)), out):
        alt += MARKED[x] if x in MARKED and rng.random() < 0.8 else x
    return [out, alt]


def typed(s, ws, seed):
    rng = random.Random(seed)
    return [S.spell(s, std(s, w), w, rng) for w in ws]


def std(s, w):
    if s in S.OTHER:
        return C.render(s, w)
    return model.render(s, w) if not s.startswith('Baraha') else model.roman(model.charts()[s]['raw'], w) if not isinstance(w, str) else model_sym(s, w)


def model_sym(s, w):
    o = model.charts()[s]['raw']['other']
    return ''.join(o.get(c) or ('oM' if c == 'ॐ' else c) for c in w)


def run_job(job, rec):
    rng0 = random.Random(job['seed'])
    s = job['src']

    def go(ws, rng):
        tgt = rng.choice([t for t in TARGETS if t != s and not (t == 'Tamil' and s.startswith('Baraha'))])
        ws = [w for w in ws if S.ok(s, w) and W.usable([w], [tgt] if s.startswith('Baraha') or s in S.OTHER else [tgt, s])]
        if s.startswith('Baraha') or s in S.OTHER:
            ws = [w for w in ws if not isinstance(w, str)]
        if not ws:
            return None
        seed = rng.getrandbits(30)
        return {'src': s, 'tgt': tgt, 'words': ws, 'typed': typed(s, ws, seed), 'seps': [rng.choice([' ', '\n', ' ', '  ', '\n\n']) for _ in range(5)]}
    keys = lambda c: [s + t for t, w in zip(c['typed'], c['words']) if t != std(s, w)]

    def run(c):
        if c:
            k = keys(c)
            rec.check(flat(c), bool(k), k)
    if job['kind'] == 'pair':
        for _ in range(job['n']):
            tgt = rng0.choice([t for t in TARGETS if t != 'Tamil' and (s != 'Itrans' or t in W.INDIC)])
            ws = [w for w in W.rand_words(rng0, 12, PROFILE) if not isinstance(w, str) and (S.ok(s, w) or s != 'Itrans' and S.ok(s, [[[x for x in on if x != 'ह'], v, m] for on, v, m in w if on or v > -2])) and all(v > -2 and (on or not k) for k, (on, v, m) in enumerate(w))]
            ps = [pair(s, w, rng0) for w in ws if s == 'Itrans' or W.usable([w], [tgt])]
            c = {'src': s, 'tgt': tgt, 'pairs': ps, 'seps': [rng0.choice([' ', '\n']) for _ in range(5)]}
            rec.check(c, any(a != b for a, b in ps), [s + b for a, b in ps if a != b])
    elif job['kind'] == 'sweep':
        ws = list(W.sweep_words('cv', PROFILE.cons, PROFILE.nv)) + list(W.sweep_words('ccv', PROFILE.cons[::1], 2 if not job['big'] else 6))
        ws += [[[[], v, m]] for v in range(18) for m in [''] + MARKS]
        ws += [[[[c], 0, ''], [[d], v, '']] for c in 'कन' for d in PROFILE.cons for v in range(18)]
        if not job['big'] and s not in S.OTHER:
            rng0.shuffle(ws)
            ws = ws[:4000]
        for k in S.ROMAN.get(s, {}).get('two', {}):     # the clusters that have spellings of their own, often
            ws += [[[list(a + k + b), v, m]] for a in ('', 'त') for b in ('', 'म', 'व', 'न', 'त') for v in (-1, 0, 1, 2, 6, 10, 12) for m in ('', 'ं', '') if v >= 0 or not m]
            ws += [[[[x], v, ''], [list(k), y, '']] for x in 'कम' for v in range(14) for y in (0, 2, 3, 10)]
        for i in range(0, len(ws), 100):
            run(go(ws[i:i + 100], rng0))
    elif job['kind'] == 'rand':
        for _ in range(job['n']):
            run(go(W.rand_words(rng0, rng0.choice((3, 60, 60)), PROFILE), rng0))
    else:
        rec.hyp(gen.strategy(1, 24), lambda ints: flat(go([w for w, _ in gen.decode(ints, PROFILE)], random.Random(str(ints)))), job['n'], job['seed'], sub=lambda c: [s + t for w, t in c['words']])


def flat(c):
    return c and {'src': c['src'], 'tgt': c['tgt'], 'words': [[w, t] for w, t in zip(c['words'], c['typed'])], 'seps': c['seps']}


def judge(case):
    s, tgt, seps = case['src'], case['tgt'], case['seps']
    if 'pairs' in case:
        a, b = (C.join([p[k] for p in case['pairs']], seps or [' ']) for k in (0, 1))
        return expect(tx(s, tgt, b), tx(s, tgt, a), '%s->%s of %r' % (s, tgt, b[:80]))
    ws = [w for w, t in case['words']]
    d = C.join([t for w, t in case['words']], seps or [' '])
    if s in S.OTHER:
        e = tx(s, tgt, C.join([std(s, w) for w in ws], seps or [' ']))
    else:
        e = C.join([model.render(tgt, w) for w in ws], seps or [' '])
    expect(tx(s, tgt, d), e, '%s->%s of %r' % (s, tgt, d[:80]))
