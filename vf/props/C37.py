"""Foreign text between the words passes through unchanged, and the words are converted as they are by themselves."""
import random
from vf import core, gen, model, words as W
from vf.core import tx, expect, subseed

ID = 'C37'
LEVEL = 'exploration'
RULE = 'a case is a text of words with foreign tokens between them (touching, or between spaces) for one source, target and nativization; each distinct (source, target, token, touching or not) counts once'
ASSUMPTIONS = ['the conversion of each word by itself is taken from the library (C10 decides that words on lines of their own are independent)']
SHRINK = ('parts',)
PROFILE = gen.Profile(gen.CALL, 14, cluster=3, om=False)
ROMAN_SRC = ['IAST', 'ISO', 'HK', 'Titus', 'Itrans', 'Velthuis', 'WX']
SOURCES = ['Devanagari'] * 5 + [s for s in W.INDIC if s != 'Devanagari'] + ROMAN_SRC
RANGES = [(0x4E00, 0x9FA5), (0xAC00, 0xD7A3), (0x1F300, 0x1F5FF), (0x1F600, 0x1F64F), (0x1200, 0x1248), (0x10D0, 0x10F0), (0x561, 0x586), (0x2200, 0x22FF), (0x2500, 0x257F), (0x20A0, 0x20BF), (0x2190, 0x21FF), (0x2600, 0x26FF),
          (0x2170, 0x217F), (0xAC, 0xAE), (0x2E80, 0x2E99), (0xA000, 0xA100), (0x1D400, 0x1D433)]
OWN = set('│┃↑↓\u00ad')                                        # marks of the library
PUNCT = ['(', ')', '[', ']', '“', '”', '‘', '—', '–', '…', '/', '+', '=', '%', '@', '#', '$', '*', '<', '>', '"', ':', ';', ',', '!', '?', '-', '«', '»', '§', '©', '\t', '•', '--', '),', '?!', '**', '{', '}', '{+}', '{—}', '{)', '(}', '(…)', '(:)', '{=}}', '{{*}}', '{-}']
WORDS = ['abc', 'Xyz', 'http', 'Model', 'T', 'дом', 'ΑΒγ', 'Привет', 'naïve']
ARAB = set(',;?')
# signs that a target has letters of its own for
REPLACED = {'Tibetan': set('(){}'), 'TibetanLoC': set('(){}'), 'Limbu': set('!?'), 'LimbuLoC': set('!?'), 'Urdu': ARAB | {'.'}, 'Shahmukhi': ARAB | {'.'}, 'Thaana': ARAB, 'HanifiRohingya': ARAB | set('/\\'), 'OldPersian': set('<')}
SPACE = {'Tibetan', 'TibetanLoC', 'Khojki', 'Bhaiksuki', 'Kaithi', 'OldPersian', 'PhagsPa', 'Ugar', 'Ugaritic', 'RomanColloquial'}
NOGLUE = {'PhagsPa', 'Thai', 'RomanColloquial', 'RomanReadable'}
KANA = {'Hiragana', 'Katakana'}


def targets():
    from aksharamukha import GeneralMap as G
    return [t for t in list(G.IndicScripts) + list(G.LatinScripts) if t != 'IPA']


def is_roman(t):
    from aksharamukha import GeneralMap as G
    return t in G.LatinScripts


def jobs(tier, seed):
    core.api()
    big = tier == 'thorough'
    js = []
    for t in targets():
        js.append({'kind': 'rand', 'tgt': t, 'n': 80 if big else 12, 'seed': subseed(seed, t)})
    for k in range(40 if big else 8):
        js.append({'kind': 'hyp', 'n': 60 if big else 20, 'seed': subseed(seed, 'h', k)})
    return js


def token(rng, src, tgt):
    k = rng.randrange(3)
    if k == 0:
        t = rng.choice(PUNCT)
    elif k == 1 and src not in ROMAN_SRC:
        t = rng.choice(WORDS)
    else:
        a, b = rng.choice(RANGES)
        t = ''.join(chr(rng.randrange(a, b + 1)) for _ in range(rng.randrange(1, 4)))
    return t


def usable(src, tgt, t):
    if set(t) & (OWN | REPLACED.get(tgt, set())):
        return False
    if src in ('HK', 'Itrans', 'Velthuis') and '*' in t:                               # n*d is a letter
        return False
    if src == 'Velthuis' and '"' in t:                         # "n "s are letters
        return False
    return not (t in WORDS and (src in ROMAN_SRC or tgt in ('RomanColloquial', 'RomanReadable')))


def build(rng, src, tgt, ws):
    """[word, glue, token, ...]: glue '' touching, ' ' spaces."""
    parts = []
    for w in ws:
        t = token(rng, src, tgt)
        if not usable(src, tgt, t):
            continue
        glue = rng.choice(['', '', ' '])
        if tgt in NOGLUE or t in WORDS and is_roman(tgt) or tgt == 'SLP1' and t[0].isalpha():
            glue = ' '
        if tgt in SPACE and glue:
            if tgt in NOGLUE:
                continue
            glue = ''
        parts.append([w, glue, t])
    return parts


def ok(w, src):
    return not isinstance(w, str) and W.usable([w], [src])


def run_job(job, rec):
    rng = random.Random(job['seed'])
    keys = lambda c: ['/'.join((c['src'], c['tgt'], g, t)) for w, g, t in c['parts']]
    if job['kind'] == 'rand':
        for _ in range(job['n']):
            src = rng.choice([s for s in SOURCES if s != job['tgt']])
            ws = [w for w in W.rand_words(rng, 40, PROFILE) if ok(w, src)]
            c = {'src': src, 'tgt': job['tgt'], 'nat': rng.random() < 0.3, 'parts': build(rng, src, job['tgt'], ws)}
            if c['parts']:
                rec.check(c, True, keys(c))
    else:
        ts = targets()

        def to_case(ints):
            r = random.Random(str(ints))
            src, tgt = r.choice(SOURCES), r.choice(ts)
            ws = [w for w, _ in gen.decode(ints, PROFILE) if ok(w, src)]
            p = build(r, src, tgt, ws)
            return {'src': src, 'tgt': tgt, 'nat': r.random() < 0.3, 'parts': p} if p and src != tgt else None
        rec.hyp(gen.strategy(1, 24), to_case, job['n'], job['seed'], sub=keys)


def judge(case):
    src, tgt, nat, parts = case['src'], case['tgt'], case['nat'], case['parts']
    ws = [model.render(src, w) for w, g, t in parts]
    if not ws:
        return
    conv = tx(src, tgt, '\n'.join(ws), nat).split('\n')
    if len(conv) != len(ws):
        raise core.Violation('%s->%s of %d lines gives %d lines' % (src, tgt, len(ws), len(conv)))
    d = '\n'.join(x + g + t + g + x for x, (w, g, t) in zip(ws, parts))
    e = '\n'.join(x + g + t + g + x for x, (w, g, t) in zip(conv, parts))
    expect(tx(src, tgt, d, nat), e, '%s->%s%s of %r' % (src, tgt, ' (nativize)' if nat else '', d[:60]))
