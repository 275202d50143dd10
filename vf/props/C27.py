"""Post-options apply their definition to the output, and nothing else."""
import random
from vf import core, options as O, sources as S, words as W
from vf.core import Violation, subseed, tx
from vf.props import C05, C26

ID = 'C27'
LEVEL = 'exploration'
RULE = ('a case is a text converted with one post-option; non-trivial if the definition changes the output; each distinct (option, source, target, nativization, text) counts once')
ASSUMPTIONS = ['the definitions in vf/options.py, by Unicode character names where the letters have telling ones']
SHRINK = ('words', 'seps', 'extra', 'more')
SOURCES = ['Devanagari'] * 6 + [s for s in W.MAIN if s != 'Devanagari']
SEPS = [' ', ' ', ', ', ' १२३ ', ' । ', '\n', ' ॥ ', '. ', ' .. ', ' 45 ']
EXTRA = ['क़', 'ज्ञ', 'वन्', 'नन्', 'आम्', 'वाक्', 'बय्', 'तॄ', 'ॐ', 'सर्वः', 'अर्थ', 'कर्', 'आन्य', 'र्क', 'ऍ', 'ह्मह्नह्यह्रह्लह्व', 'ह्ङह्ञ', 'न्हम्ह्यर्ह्लल्ह', 'ऴऩऱ', 'काँ', 'सत्', 'इई', 'उऊ', 'चछजझ',
         'त्त', 'क्क', 'खख', 'रक', 'कौ औ', 'इ', 'आ', 'ऋॠऌॡ', 'कृकॄकॢकॣ', 'ऎऒकॆकॊ', 'अन्', '४५', '।', 'वव', 'यया', 'वो', 'ण्ण', 'क्य', '१०', 'ब्रह्म']


def jobs(tier, seed):
    big = tier == 'thorough'
    out = []
    for o in O.TABLE:
        for t in O.TABLE[o][0]:
            out.append({'opt': o, 'tgt': t, 'n': 300 if big else 30, 'sweep': 12 if big else 3, 'seed': subseed(seed, o, t)})
    return out


def make(rng, o, t, ws):
    s = rng.choice(SOURCES)
    if s != 'Devanagari':
        ws = [w for w in ws if C26.okw((s, t), w)]
    if s == t or not ws:
        s = 'Devanagari' if t != 'Devanagari' else 'Kannada'
        ws = W.usable(ws, [s])
    same = [q for q in O.TABLE if t in O.TABLE[q][0] and not (o in O.ALONE and q in O.ALONE)]
    return {'opt': o, 'more': [rng.choice(same)] if rng.random() < .3 else [], 'src': s, 'tgt': t, 'nat': rng.random() < .5, 'words': ws, 'seps': [rng.choice(SEPS) for _ in range(5)], 'extra': [rng.choice(EXTRA) for _ in range(rng.choice((0, 4, 8)))]}


def run_job(job, rec):
    rng = random.Random(job['seed'])
    o, t = job['opt'], job['tgt']
    try:
        p = S.profile(t)
    except KeyError:
        p = W.FULL
    bs = [W.rand_words(rng, rng.choice((1, 5, 30)), p) for _ in range(job['n'])]
    for nm, parts in (('cv', 4), ('v', 1), ('ccv', 40), ('cc_mid', 3), ('mcv', 12)):
        for k in range(min(parts, job['sweep'])):
            b = list(W.batches(W.sweep_words(nm, p.cons, p.nv, p.marks, (k + job['seed']) % parts, parts), 60, rng))
            rng.shuffle(b)
            bs += b[:4 * job['sweep']]
    for b in bs:
        c = make(rng, o, t, list(b))
        try:
            ch = judge(c)
        except Violation:
            rec.check(c)
            continue
        rec.check(c, nontrivial=bool(ch))


def judge(c):
    opts = [c['opt']] + c['more']
    x = S.text(c['src'], c['words'], c['seps'] or [' '])
    if c['extra']:
        e = ' '.join(c['extra'])
        x += ' ' + (e if c['src'] == 'Devanagari' else tx('Devanagari', c['src'], e))
    base = tx(c['src'], c['tgt'], x, c['nat'])
    want = base
    for o in opts:
        want = O.TABLE[o][1](want)
    core.expect(tx(c['src'], c['tgt'], x, c['nat'], [], opts), want, '%s->%s nativize=%s with %s of %r' % (c['src'], c['tgt'], c['nat'], '+'.join(opts), x[:60]))
    return want != base
