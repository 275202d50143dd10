"""Pre-options: each reads the text as its definition rewrites it, and reading options undo the writing options of their name."""
import random, re
from vf import model, preopts as Q, sources as S, words as W
from vf.core import Violation, expect, subseed, tx
from vf.phon import NUKTA

ID = 'C36'
LEVEL = 'exploration'
RULE = 'a case is a text converted with a pre-option; non-trivial if the option changes the result (definitions) or its writing option does (round-trips); each distinct (option, scripts, text) counts once'
ASSUMPTIONS = ['the definitions in vf/preopts.py']
SHRINK = ('words', 'extra')
INDIC = ['Devanagari', 'IAST', 'Telugu', 'Tamil', 'ISO', 'Thai', 'HK', 'Bengali', 'Gurmukhi', 'Kannada']
SEMITIC = ['Latn', 'Hebr', 'Syrc', 'Arab', 'Phnx']
# target, post-option, pre-option, kind of words
PAIRS = [('Thai', 'ThaiSajjhayaOrthography', 'ThaiSajjhayaOrthography', 'pali'), ('Thai', 'ThaiSajjhayawithA', 'ThaiSajjhayawithA', 'pali'),
         ('LaoPali', 'LaoSajjhaya', 'LaoSajhayaOrthography', 'pali'), ('LaoPali', 'LaoSajjhayawithA', 'LaoSajhayaOrthographywithA', 'pali'),
         ('LaoPali', 'LaoTranscription', 'LaoTranscription', 'pali'), ('Grantha', 'GranthaPrakrit', 'GranthaPrakrit', 'sanskrit'),
         ('Malayalam', 'MalayalamPrakrit', 'MalayalamPrakrit', 'full'), ('Sinhala', 'SinhalaPali', 'SinhalaPali', 'sanskrit'),
         ('Bengali', 'BengaliSwitchYaYYa', 'BengaliSwitchYaYYa', 'sanskrit'), ('HK', 'swapEe', 'swapEe', 'full'), ('Velthuis', 'swapEe', 'swapEe', 'full'),
         ('Tamil', 'TamilSubScript', 'TamilNumeralSub', 'full'), ('Balinese', 'BalineseMoveRepha', 'BalineseMoveRepha', 'Balinese'),
         ('Javanese', 'JavaneseMoveRepha', 'JavaneseMoveRepha', 'Javanese'), ('Kawi', 'KawiMoveRepha', 'KawiMoveRepha', 'Javanese'),
         ('DivesAkuru', 'DivesAkuruAlternateIndVowels', 'DivesAkuruAlternateIndVowels', 'sanskrit')]
PALI = 'कखगघचछजझञटठडढणतथदधनपफबभमयरलवसहळ'
CLUSTERS = ('क्ख क्क ग्ग ग्घ च्च च्छ ज्ज ज्झ ञ्च ञ्छ ञ्ज ट्ट ट्ठ ड्ड ण्ट ण्ठ ण्ड त्त त्थ द्द द्ध न्त न्द न्ध प्प प्फ ब्ब ब्भ म्प म्ब म्भ म्म न्न ण्ण ञ्ञ य्य ल्ल स्स म्ह ञ्ह ण्ह न्ह ल्ह व्ह य्ह स्म स्न त्र '
            'द्र ब्र द्व त्व स्व क्य प्ल क्ल स्त ल्य व्य र्य').split()


def pali_word(rng):
    w = []
    for i in range(rng.randrange(1, 5)):
        v = rng.choice((0, 0, 1, 2, 3, 4, 5, 10, 12))
        if not i and rng.random() < .2:
            on = []
        elif i and rng.random() < .45:
            on = rng.choice(CLUSTERS).split('्')
        else:
            on = [rng.choice(PALI)]
        w.append([on, v, ''])
    return w


def ok(kind, t, w):
    if isinstance(w, str):
        return False
    if kind == 'pali':
        return all(m == '' for on, v, m in w)
    if t in ('Balinese', 'Javanese') and w[-1][1] < 0 and w[-1][0][-1:] == ['र']:
        return False                       # a final r is the same sign
    if t in ('Javanese', 'Kawi') and any(6 <= v <= 9 or i and not on for i, (on, v, m) in enumerate(w)):
        return False                       # vocalic r and l hold the same signs; a vowel letter after a syllable may join its sign
    if t == 'Kawi' and any(on and on[0] == 'र' and (len(on) > 1 or v < 0) and (i == 0 or w[i - 1][1] < 0 or w[i - 1][2]) for i, (on, v, m) in enumerate(w)):
        return False                       # the sign of an initial r would belong to the letter after it
    if t == 'Malayalam' and any(len(on) > 2 or len(on) > 1 and set(on) & set(NUKTA) for on, v, m in w):
        return False                       # two geminates of one letter; a dotted letter after its base
    return True


def words(rng, kind, n):
    if kind == 'pali':
        return [pali_word(rng) for _ in range(n)]
    p = W.FULL if kind == 'full' else S.profile('Javanese')
    return W.rand_words(rng, n, p)


def jobs(tier, seed):
    big = tier == 'thorough'
    out = [{'kind': 'pair', 'i': i, 'n': 1500 if big else 100, 'seed': subseed(seed, 'p', i)} for i in range(len(PAIRS))]
    out += [{'kind': 'def', 'opt': o, 'src': s, 'n': 1200 if big else 80, 'seed': subseed(seed, o, s)} for o in Q.TABLE for s in Q.TABLE[o][0]]
    return out


def run_job(job, rec):
    rng = random.Random(job['seed'])
    for _ in range(job['n']):
        n = rng.choice((1, 2, 8, 20))
        if job['kind'] == 'pair':
            t, po, pr, kind = PAIRS[job['i']]
            s = rng.choice(['Devanagari'] + [x for x in W.INDIC if x != t])
            ws = [w for w in W.usable(words(rng, kind, n), [s] + ([t] if t in W.MAIN else [])) if ok(kind, t, w)]
            c = {'kind': 'pair', 'pair': job['i'], 'src': s, 'words': ws, 'extra': []}
        else:
            s = job['src']
            ts = SEMITIC if s in ('Urdu', 'Arab', 'Arab-Fa', 'Hebr') else INDIC + ['Saurashtra'] * 5 if 'Saurastra' in job['opt'] else INDIC
            ex = Q.TABLE[job['opt']][2]
            ws = W.usable(W.rand_words(rng, n, W.FULL), ['Devanagari'])
            c = {'kind': 'def', 'opt': job['opt'], 'src': s, 'tgt': rng.choice([t for t in ts if t != s]), 'words': ws, 'extra': [rng.choice(ex) for _ in range(rng.randrange(4))] if ex else []}
        if not c['words']:
            continue
        try:
            eff = judge(c)
        except Violation:
            rec.check(c)
            continue
        rec.check(c, nontrivial=bool(eff))


def judge(c):
    if c['kind'] == 'pair':
        t, po, pr, kind = PAIRS[c['pair']]
        s = c['src']
        x = ' '.join(model.render(s, w) for w in c['words'])
        plain = tx(s, t, x)
        y = tx(s, t, x, False, (), (po,))
        expect(tx(t, s, y, False, (pr,)), tx(t, s, plain), '%s->%s with %s and back with %s, of %r' % (s, t, po, pr, x[:60]))
        return y != plain
    o, s, t = c['opt'], c['src'], c['tgt']
    f = Q.TABLE[o][1]
    x = tx('Devanagari', s, ' '.join(model.render('Devanagari', w) for w in c['words']))
    x = ' '.join([x] + list(c['extra']))
    b = tx(s, t, f(x))
    expect(tx(s, t, x, False, (o,)), b, '%s->%s of %r with %s' % (s, t, x[:60], o))
    return b != tx(s, t, x)
