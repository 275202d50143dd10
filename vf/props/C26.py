"""Nativization on (the default): words are spelled by the native orthography of the target."""
import random
from vf import core, native as NT, sources as S, words as W
from vf.core import api, expect, subseed, Violation
from vf.props import C05

ID = 'C26'
LEVEL = 'exploration'
RULE = ('a case is a text of words (swept over letters, vowels, marks and clusters, or random) in one source script converted with nativization on (explicitly or by '
        'default); each distinct (source, target, word) counts once')
ASSUMPTIONS = ['letter charts of C01-C06', 'native rules of vf/native.py']
SHRINK = ('words', 'seps')
TARGETS = [s for s in S.ALL if s != 'Multani']
SOURCES = [s for s in W.MAIN if s != 'Devanagari'] + ['Sharada', 'Grantha', 'Brahmi', 'Newa', 'Tirhuta', 'Ranjana']
SEPS = [' ', '\n', ' ', ', ', ' - ', '। ']


def okw(ss, w):
    for s in ss:
        if w == 'ॐ' or s not in W.MAIN and not C05.ok(s, w):
            return False
    if not NT.ok(ss[-1], w):
        return False
    m = [s for s in ss if s in W.MAIN]
    return bool(W.usable([w], m)) if m else True


def jobs(tier, seed):
    big = tier == 'thorough'
    out = []
    for t in TARGETS:
        for nm, parts in (('cv', 1), ('v', 4), ('ccv', 12), ('cc_mid', 2), ('mcv', 8)):
            use = range(parts) if big or t in ('Telugu', 'Kannada', 'Malayalam', 'Bengali', 'Assamese', 'Oriya', 'Gurmukhi', 'Tamil', 'Nandinagari') and nm != 'ccv' else [subseed(seed, t, nm) % parts]
            out += [{'kind': 'sweep', 'tgt': t, 'name': nm, 'part': k, 'parts': parts, 'seed': subseed(seed, t, nm, k)} for k in use]
        out.append({'kind': 'rand', 'tgt': t, 'n': 400 if big else 40, 'seed': subseed(seed, t, 'r')})
    for s in SOURCES:
        out.append({'kind': 'src', 'src': s, 'n': 30 if big else 2, 'seed': subseed(seed, s, 's')})
    return out


def emit(rec, rng, s, t, ws):
    g = [w for w in ws if okw((s, t), w)]
    rec.excluded += len(ws) - len(g)
    if g:
        rec.check({'src': s, 'tgt': t, 'words': g, 'seps': [rng.choice(SEPS) for _ in range(5)], 'default': rng.random() < .5}, True, [s + t + repr(w) for w in g])


def run_job(job, rec):
    rng = random.Random(job['seed'])
    if job['kind'] == 'sweep':
        t = job['tgt']
        p = S.profile(t)
        for b in W.batches(W.sweep_words(job['name'], p.cons, p.nv, p.marks, job['part'], job['parts']), 60, rng):
            emit(rec, rng, 'Devanagari', t, b)
    elif job['kind'] == 'rand':
        t = job['tgt']
        for _ in range(job['n']):
            emit(rec, rng, 'Devanagari', t, W.rand_words(rng, rng.choice((1, 3, 40)), S.profile(t)))
    else:
        s = job['src']
        for t in TARGETS:
            if t != s and not (t == 'BengaliRaBa' and s in ('Bengali', 'Assamese')):
                p = S.profile(t) if S.profile(t) is not W.FULL else S.profile(s)
                for _ in range(job['n']):
                    emit(rec, rng, s, t, W.rand_words(rng, rng.choice((3, 30)), p))


def native(t, words, seps):
    out = []
    for i, w in enumerate(words):
        if i:
            out.append(S.text(t, [[], []], [seps[(i - 1) % len(seps)]]) if seps else S.text(t, [[], []], [' ']))
        out.append(NT.render(t, w))
    return ''.join(out)


def judge(case):
    s, t, ws, seps = case['src'], case['tgt'], case['words'], case['seps'] or [' ']
    x = S.text(s, ws, seps)
    a = api()
    try:
        if case['default']:
            got = a.call(a.tr.process, s, t, x)
        else:
            got = a.process(s, t, x, True)
    except Exception as e:
        raise Violation('%s->%s (nativized) of %r raised %r' % (s, t, x[:60], e))
    expect(got, native(t, ws, seps), '%s->%s (nativized%s) of %r' % (s, t, ', by default' if case['default'] else '', x[:60]))
