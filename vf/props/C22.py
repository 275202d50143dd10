"""Vedic accents: each sign of the source is written as the sign the target uses for it, at its syllable, and read back."""
import random
from vf import charted as C, gen, model, stack, words as W
from vf.core import expect, subseed, tx
from . import C05

ID = 'C22'
LEVEL = 'exploration'
RULE = 'a case is a text of words with accents on any of their syllables; non-trivial if at least one syllable is accented; each distinct (source, target, text) counts once'
ASSUMPTIONS = ['letter charts as in C03, C05 and C06', 'accent signs in the table ACC']
SHRINK = ('words', 'acc')
DIA = ('IAST', 'ISO', 'Titus', 'IASTPali', 'ISOPali', 'RussianCyrillic')
ASCII = ('HK', 'Itrans', 'Velthuis', 'WX')
VEDIC = ('Devanagari', 'Sharada', 'Telugu', 'Kannada', 'Malayalam', 'Gujarati', 'Bengali', 'Oriya', 'Gurmukhi', 'Tamil', 'Assamese', 'TamilExtended')


STRIP = tuple(s for s in stack.FORWARD if s not in W.MAIN and s not in ('Balinese', 'Sundanese', 'Rejang', 'Limbu', 'Javanese')) + ('IPA',)


def acc(s):
    """Signs of the target for svarita, anudatta and double svarita."""
    if s in DIA:
        return ('', '\u030d', '\u0331', '\u030e')
    if s in ASCII:
        return ('', "\\'", '\\_', '\\"')
    if s == 'Grantha':
        return ('', '\u1cf4', '\u0952', '\u0951')
    if s in VEDIC:
        return ('', '\u0951', '\u0952', '\u1cda')
    return ('', '↑', '↓', '↑↑')


def spell(s, w):
    return model.render(s, w) if s in W.MAIN else C.render(s, w)


def write(s, w, a):
    """The word with its accents; None if the script does not spell it syllable by syllable."""
    o, end = '', 0
    full = spell(s, w)
    for k, ((on, v, m), x) in enumerate(zip(w, a)):
        p = spell(s, w[:k + 1])
        if not full.startswith(p) or len(p) < end:
            return None
        q = p
        if s in DIA and m:
            q = spell(s, w[:k] + [[on, v, '']])
            if not p.startswith(q):
                return None
        elif s == 'Tamil':
            if q[-1:] in 'ʼ˘ˮ꞉':
                q = q[:-1]
        elif s == 'Gurmukhi' and k and a[k - 1] and 'ੱ' in p[end:]:
            return None          # the addak is not written after an accent
        o += p[end:len(q)] + acc(s)[x] + p[len(q):]
        end = len(p)
    if s == 'WX' and any(m + 'z' in o + full[end:] for m in acc(s)[1:]):
        return None              # z would read as candrabindu before the accent
    return o + full[end:]


def text(s, ws, ac, seps):
    return C.join([write(s, w, a) for w, a in zip(ws, ac)], [C.SEP.get(s, {}).get(x, x) for x in seps] if s not in W.MAIN else seps)


def good(w, a, scripts):
    return not isinstance(w, str) and all(v != -2 and (on or not k) for k, (on, v, m) in enumerate(w)) and all(write(s, w, a) is not None for s in scripts)


def jobs(tier, seed):
    big = tier == 'thorough'
    out = [{'a': a, 'b': b, 'n': 60 if big else 6, 'seed': subseed(seed, a, b)} for a in W.MAIN for b in W.MAIN if a != b and not (a in W.ROMAN and b in W.ROMAN and not (a in DIA and b in DIA))]
    for b in C05.SCRIPTS:
        out.append({'a': 'Devanagari', 'b': b, 'n': 300 if big else 20, 'seed': subseed(seed, b)})
    for a in C05.EXACT:
        out.append({'a': a, 'b': 'Devanagari', 'n': 300 if big else 20, 'seed': subseed(seed, a)})
    for b in STRIP:
        out.append({'kind': 'strip', 'a': 'Devanagari', 'b': b, 'n': 200 if big else 16, 'seed': subseed(seed, b, 'strip')})
    return out


def run_job(job, rec):
    rng = random.Random(job['seed'])
    a, b = job['a'], job['b']
    if job.get('kind') == 'strip':
        for k in range(job['n']):
            ws = [w for w in W.rand_words(rng, 20, C05.CORE) if good(w, [1] * len(w), ('Devanagari',)) and (b not in stack.FORWARD or stack.ok(b, w))]
            ac = [[rng.choice((0, 1, 2, 3)) if v >= 0 else 0 for _, v, _ in w] for w in ws]
            rec.check({'kind': 'strip', 'a': a, 'b': b, 'words': ws, 'acc': ac, 'seps': [' '], 'nat': k % 2 == 1}, any(map(any, ac)))
        return
    for k in range(job['n']):
        ws = W.rand_words(rng, 20, W.FULL if a in W.MAIN and b in W.MAIN else C05.CORE)
        ws = W.usable([w for w in ws if not isinstance(w, str)], [s for s in (a, b) if s in W.MAIN])
        for s in (a, b):
            if s not in W.MAIN:
                ws = [w for w in ws if C05.ok(s, w) and (s == b or C05.core_word(w))]
        ac = [[rng.choice((0, 1, 2, 3)) if v >= 0 else 0 for _, v, _ in w] for w in ws]
        z = [(w, x) for w, x in zip(ws, ac) if good(w, x, (a, b))]
        rec.check({'a': a, 'b': b, 'words': [w for w, x in z], 'acc': [x for w, x in z], 'seps': [rng.choice((' ', '\n', ' ')) for _ in range(3)]}, any(map(any, ac)))


def judge(c):
    a, b = c['a'], c['b']
    z = [(w, x) for w, x in zip(c['words'], c['acc']) if len(w) == len(x)]
    ws, ac = [w for w, x in z], [x for w, x in z]
    x = text(a, ws, ac, c['seps'])
    if c.get('kind') == 'strip':
        got, want = tx(a, b, x, c['nat']), tx(a, b, text(a, ws, [[0] * len(y) for y in ac], c['seps']), c['nat'])
        n = [sum(y.count(k) for y in ac) for k in range(4)]
        for m, k in zip(acc(b)[3:0:-1], (3, 2, 1)):
            expect(got.count(m), n[k], '%s->%s of %r: signs %r' % (a, b, x[:60], m))
            got = got.replace(m, '')
        return expect(got, want, '%s->%s without its accents, of %r' % (a, b, x[:60]))
    expect(tx(a, b, x), text(b, ws, ac, c['seps']), '%s->%s of %r' % (a, b, x[:60]))
