"""Letters beyond the common inventory: Sindhi implosives, glottal stop, zha, Kashmiri vowels."""
import random
from vf import charted as C, gen, model, readback as R, sources as S, stack, words as W
from vf.core import tx, expect, subseed
from vf.phon import *
from vf.props import C05

ID = 'C33'
LEVEL = 'exploration'
RULE = 'a case is a text of generated words that all contain an implosive (or a Kashmiri vowel, glottal stop or zha), for one pair of scripts; each distinct (pair, word) counts once'
ASSUMPTIONS = ['letter charts in spec/', 'implosives in open syllables only (the low line does not interact with final letters)']
SHRINK = ('words', 'seps')
PLAIN = 'गजडब'
OWN = {'Multani': [None, '\U0001128D', '\U00011293', None], 'Devanagari': 'ॻॼॾॿ', 'Khudawadi': '𑊽𑋃𑋉𑋕', 'Khojki': '\U0001120B\U00011211\U0001121C\U00011222'}
LOW = 'ˍ'
SRC = list(W.MAIN) + ['Khudawadi', 'Khojki', 'Ranjana', 'Sharada', 'Newa', 'Tirhuta', 'Brahmi', 'Siddham', 'Kaithi', 'Modi', 'Dogra']
TGT = [s for s in S.ALL if s not in ('Mahajani', 'Hanunoo', 'Buhid', 'Tagalog', 'Tagbanwa')]
EXTRA = ['ॽ', 'ॹ', 'ऺ', 'ऻ', 'ॳ', 'ॴ', 'ॶ', 'ॷ', 'ॖ', 'ॗ']


# a word is a list of pieces; every piece after the first begins with an implosive
def pieces(rng, s, t):
    n = rng.choice((1, 1, 2, 3))
    out = []
    for i in range(n + 1):
        k = rng.choice((0, 1, 2)) if i == 0 else rng.choice((1, 1, 2))
        w = []
        for j in range(k):
            on = [rng.choice(gen.C33)] if rng.random() < .8 or i or j else []
            w.append([on, rng.randrange(6) if rng.random() < .7 else rng.choice((0, 10, 11, 12, 13)), ''])
        if i:
            w[0][0] = [rng.choice(PLAIN)]
        if w and i == n and rng.random() < .2:
            w[-1][2] = 'ं'
        out.append(w)
    return out


def render1(s, w):
    return S.text(s, [w], [' ']) if w else ''


def render(s, ps):
    o = render1(s, ps[0])
    for p in ps[1:]:
        t = render1(s, p)
        k = PLAIN.index(p[0][0][0])
        if s in OWN and OWN[s][k]:
            b = render1(s, [[[PLAIN[k]], 0, '']])
            if b not in t[:4]:
                raise ValueError
            t = t.replace(b, OWN[s][k], 1)
            o += t
        else:
            o += LOW + t
    return o


def text(s, words, seps):
    return seps_join(s, [render(s, ps) for ps in words], seps)


def seps_join(s, parts, seps):
    out = []
    for i, x in enumerate(parts):
        if i:
            out.append(''.join(C.SEP.get(s, {}).get(c, c) for c in seps[(i - 1) % len(seps)]))
        out.append(x)
    return ''.join(out)


def jobs(tier, seed):
    big = tier == 'thorough'
    out = []
    for s in SRC:
        out.append({'kind': 'imp', 'src': s, 'n': 60 if big else 6, 'seed': subseed(seed, s)})
    for s in W.INDIC:
        out.append({'kind': 'extra', 'src': s, 'n': 300 if big else 40, 'seed': subseed(seed, s, 'e')})
    return out


def extra_word(rng):
    o = []
    for j in range(rng.choice((1, 2, 2, 3, 4))):
        r = rng.random()
        if r < .35:
            c = rng.choice(gen.C33)
            if rng.random() < .3:
                c += VIR + rng.choice([x for x in gen.C33 if x not in 'वबष'])
            o.append(c + rng.choice('ऺऻ' if c[-1] in 'रल' else 'ऺऻॖॗ'))      # ru, lu: as vocalic r, l in Gurmukhi
        elif r < .5 and j == 0:
            o.append(rng.choice('ॳॴॶॷ'))
        elif r < .6 and j:
            o.append('ॽ')
        elif r < .75:
            o.append('ॹ' + rng.choice(SIGNS[:6]))
        else:
            o.append(rng.choice(gen.C33) + rng.choice(SIGNS[:6] + SIGNS[10:14]))
    return ''.join(o)


def run_job(job, rec):
    rng = random.Random(job['seed'])
    s = job['src']
    if job['kind'] == 'extra':
        for _ in range(job['n']):
            ws = [extra_word(rng) for _ in range(30)]
            for t in W.INDIC:
                if t != s:
                    rec.check({'k': 'extra', 'src': s, 'tgt': t, 'words': ws, 'seps': [' ']}, True, [s + t + w for w in ws])
        return
    for t in TGT:
        if t == s or t == 'BengaliRaBa' and s in ('Bengali', 'Assamese'):
            continue
        for _ in range(job['n']):
            ws = []
            while len(ws) < 12:
                w = pieces(rng, s, t)
                if all(not p or usable(x, p, x == s) for p in w for x in (s, t)):
                    ws.append(w)
            rec.check({'k': 'imp', 'src': s, 'tgt': t, 'words': ws, 'seps': [rng.choice((' ', '\n', ' ', ', ')) for _ in range(5)]}, True, [s + t + repr(w) for w in ws])


def usable(s, p, src):
    if src and s in R.T and not (R.ok(s, p) and R.canon(s, p) == model.render('Devanagari', p)):
        return False        # homograph letters
    return not model.lossy(s, p) if s in W.MAIN else C05.ok(s, p)


def judge(case):
    s, t, ws, seps = case['src'], case['tgt'], case['words'], case['seps'] or [' ']
    if case['k'] == 'extra':
        d = ' '.join(ws)
        a = tx('Devanagari', s, d)
        b = tx(s, t, a)
        expect(tx(s, 'Devanagari', a), d, 'Devanagari->%s->Devanagari of %r' % (s, d[:50]))
        expect(tx(t, 'Devanagari', b), d, 'Devanagari->%s->%s->Devanagari of %r' % (s, t, d[:50]))
        return
    x = text(s, ws, seps)
    expect(tx(s, t, x), text(t, ws, seps), '%s->%s of %r' % (s, t, x[:60]))
