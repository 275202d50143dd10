"""Canonically equivalent spellings of the input give (canonically) the same output."""
import random, unicodedata as U
from vf import abjad as A, core, names, sources as S, words as W
from vf.core import expect, subseed, tx

ID = 'C30'
LEVEL = 'exploration'
RULE = 'a case is a text with 2 to 5 canonically equivalent spellings, converted to one target; non-trivial if the spellings differ; each distinct (source, target, nativization, text) counts once'
ASSUMPTIONS = ['unicodedata of the interpreter defines canonical equivalence']
SHRINK = ('text',)
SKIP = {'Inter'}
POINTED = ['Arab', 'Arab-Fa', 'Arab-Pa', 'Arab-Ur', 'Hebr', 'Syrj', 'Syrn', 'Thaa']     # the Semitic scripts whose letters take marks
ROMAN_SEMITIC = ['ISO233', 'ISO259', 'HebrewSBL', 'PersianDMG', 'Latn']


def sources():
    core.api()
    from aksharamukha import GeneralMap as G
    return [s for s in G.IndicScripts + G.LatinScripts + ROMAN_SEMITIC + POINTED if s not in SKIP]


def shuffled(rng, x):
    """NFD with the marks of different combining classes in another order."""
    o, run = [], []
    for c in U.normalize('NFD', x) + ' ':
        k = U.combining(c)
        if k and k not in [U.combining(r) for r in run]:
            run.append(c)
            continue
        rng.shuffle(run)
        o += run + [c]
        run = []
    return ''.join(o)[:-1]


def spellings(c):
    rng = random.Random(c['seed'])
    x = c['text']
    vs = [U.normalize('NFC', x), U.normalize('NFD', x), ''.join(U.normalize(rng.choice(('NFC', 'NFD')), ch) for ch in x), shuffled(rng, x)]
    out = [x]
    for v in vs:
        if U.normalize('NFD', v) == U.normalize('NFD', x) and v not in out:
            out.append(v)
    return out


MODEL = {'Urdu': 'Arab-Ur', 'Shahmukhi': 'Arab-Pa', 'Hebrew': 'Hebr', 'Thaa': 'Thaana', 'Arab-Fa': 'Arab-Ur'}
EXTRA = {'A': 'أ آ إ ئ ؤ'.split(), 'H': ['שׁ', 'שׂ', 'שּׁ', 'שּׂ'], 'S': []}


def semitic(rng, s):
    """Words of a pointed script: written by the library, of letters and points at random, and with the letters that have marks of their own."""
    from vf.props import C35
    out = C35.texts(rng, s, 60)
    m = MODEL.get(s, s)
    if m in A.SCRIPTS:
        ws = [A.write(m, w) for w in (A.random_word(rng, m) for _ in range(80)) if w]
        out += ws
        ex = EXTRA['H' if m == 'Hebr' else 'A' if m != 'Thaana' else 'S']
        out += [x + rng.choice(list(A.PNT[m].values())) + rng.choice(ws) for x in ex for _ in range(5)]
    return out or ['']


def jobs(tier, seed):
    big = tier == 'thorough'
    return [{'src': s, 'n': 1200 if big else 100, 'seed': subseed(seed, s)} for s in sources()]


def run_job(job, rec):
    rng = random.Random(job['seed'])
    s = job['src']
    if s in POINTED or s in ('Urdu', 'Shahmukhi', 'Hebrew', 'Thaana'):
        pool = semitic(rng, s)
    T = [t for t in names.all_names() if t not in ('IPA', 'Inter')]
    for _ in range(job['n']):
        if s in POINTED or s in ('Urdu', 'Shahmukhi', 'Hebrew', 'Thaana'):
            x = ' '.join(rng.sample(pool, min(len(pool), rng.choice((2, 4, 8)))))
        elif s in S.ALL:
            ws = W.rand_words(rng, rng.choice((1, 3, 8)), S.profile(s))
            x = S.text(s, ws if s in W.MAIN else [w for w in ws if 'ॐ' not in w], [' '])
        else:
            x = names.sample(s, rng, 3)
        c = {'src': s, 'tgt': rng.choice(T), 'text': x, 'nat': rng.random() < .5, 'seed': rng.getrandbits(32)}
        rec.check(c, len(spellings(c)) > 1)


def judge(c):
    vs = spellings(c)
    a = tx(c['src'], c['tgt'], vs[0], c['nat'])
    for v in vs[1:]:
        b = tx(c['src'], c['tgt'], v, c['nat'])
        if U.normalize('NFD', a) != U.normalize('NFD', b):
            expect(b, a, '%s->%s nativize=%s of %s, canonically equivalent to %s' % (c['src'], c['tgt'], c['nat'], ascii(v)[:80], ascii(vs[0])[:80]))
