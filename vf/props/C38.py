"""Text of any Brahmic script goes into every target as its Devanagari reading does."""
import random, unicodedata as U
from vf import gen, model, sources as S, words as W
from vf.core import tx, expect, subseed

ID = 'C38'
LEVEL = 'exploration'
RULE = 'a case is a text of words of one script converted into one target, directly and by way of its Devanagari reading; each distinct (source, target, nativization, word of two letters or more) counts once'
ASSUMPTIONS = ['words of the modelled scripts are written by the models of C03, C05, C06; words of the other scripts by the library from Devanagari']
SHRINK = ('texts',)
NOT = ('IPA', 'RomanSemitic', 'Inter', 'RomanLoC', 'Devanagari', 'Aksharaa')
LIB = ['GurmukhiLoC', 'LimbuLoC', 'Makasar', 'Ahom', 'Buhid', 'Tagbanwa', 'MeeteiMayek', 'KhomThai', 'TamilGrantha', 'PhagsPa', 'Chakma', 'Lepcha',
       'BatakToba', 'BatakSima', 'BatakPakpak', 'BatakManda', 'Lao', 'ThamLoC']
RABA = ('Bengali', 'Assamese', 'BengaliRaBa', 'GranthaGrantamil', 'TamilGrantha')
THAM = ('TaiTham', 'LaoTham', 'LueTham', 'KhuenTham', 'ThamLoC')
BATAK = ('BatakToba', 'BatakSima', 'BatakPakpak', 'BatakManda')
# a script's own near relatives and alphabets with marks that the source uses as well
EXCEPT = {
    'Oriya': ('RomanColloquial',), 'Tamil': ('RomanColloquial', 'RomanReadable'), 'Gurmukhi': ('GurmukhiLoC',),
    'LaoPali': ('Lao', 'Lao2'), 'Lao': ('LaoPali',), 'KhomThai': ('LimbuLoC',), 'Kharoshthi': ('LimbuLoC',),
    'Marchen': ('Wancho', 'WarangCiti'), 'Lepcha': ('Wancho', 'WarangCiti', 'Vatteluttu'), 'PhagsPa': ('WarangCiti', 'Wancho'),
}
EXCEPT.update({x: RABA for x in RABA}, **{x: ('BatakKaro',) for x in BATAK})
EXCEPT['ThamLoC'] = THAM


def sources():
    return [s for s in S.ALL if s not in W.ROMAN and s not in ('Devanagari', 'RussianCyrillic', 'Titus', 'IASTPali', 'ISOPali')] + LIB


def targets(s):
    from aksharamukha import GeneralMap as G
    ex = EXCEPT.get(s, ())
    return [t for t in list(G.IndicScripts) + list(G.LatinScripts) + list(G.SemiticScripts) if t not in NOT and t not in ex and t != s]


def jobs(tier, seed):
    big = tier == 'thorough'
    return [{'src': s, 'n': 40 if big else 18, 'both': big, 'seed': subseed(seed, s, i)} for s in sources() for i in range(6 if big else 1)]


def run_job(job, rec):
    rng = random.Random(job['seed'])
    s = job['src']
    pool = texts(s, rng, 150)
    for t in targets(s):
        for nat in (False, True) if job['both'] else (rng.random() < .4,):
            ts = rng.sample(pool, min(len(pool), job['n']))
            c = {'src': s, 'tgt': t, 'nat': nat, 'texts': ts, 'sep': rng.choice([' ', '\n'])}
            rec.check(c, True, [s + '>' + t + str(int(nat)) + x for x in ts if len(x) > 1])


def texts(s, rng, n):
    if s in S.ALL:
        ws = S.words(s, rng, n) + S.sweep(s, rng, 40)
        return [x for x in (S.text(s, [w], [' ']) for w in ws if not isinstance(w, str)) if x.strip()]
    ws = [w for w in W.rand_words(rng, n, W.FULL) if not isinstance(w, str)]
    return [x for x in tx('Devanagari', s, '\n'.join(model.render('Devanagari', w) for w in ws)).split('\n') if x.strip()]


def judge(case):
    s, t, nat, d = case['src'], case['tgt'], case['nat'], case['sep'].join(case['texts'])
    N = lambda x: U.normalize('NFC', x)
    mid = tx(s, 'Devanagari', d, nat)
    expect(N(tx(s, t, d, nat)), N(tx('Devanagari', t, mid, nat)), '%s->%s (nativize %s) of %r (read %r)' % (s, t, nat, d[:60], mid[:60]))
