"""Round trip between any two main Indic scripts is the identity (nativize off)."""
import itertools
from vf import core, words as W, model
from vf.core import tx, expect, subseed

ID = 'C01'
LEVEL = 'exploration'
RULE = ('a case is one text spelled in script A (random, Hypothesis-generated, or swept words: all letters x vowels x marks, all '
        'two-letter clusters, hiatus), sent A->B->A; each distinct (A, B, word) counts once as non-trivial')
ASSUMPTIONS = ['words A or B cannot spell unambiguously are left out (DESIGN.md)']
GROUP_A = GROUP_B = W.INDIC


def pairs():
    return [(a, b) for a in W.INDIC for b in W.INDIC if a != b]


def jobs(tier, seed, prs=None):
    out = []
    big = tier == 'thorough'
    for a, b in prs or pairs():
        x = {'a': a, 'b': b}
        for name, parts in (('cv', 1), ('v', 1 if big else 4), ('ccv', 8), ('cc_mid', 8), ('mcv', 4)):
            use = range(parts) if big else [subseed(seed, a, b, name) % parts]
            out += [dict(x, kind='sweep', name=name, part=k, parts=parts, seed=subseed(seed, a, b, name, k)) for k in use]
        out.append(dict(x, kind='rand', n=1500 if big else 100, seed=subseed(seed, a, b, 'rand')))
        out.append(dict(x, kind='hyp', n=400 if big else 25, seed=subseed(seed, a, b, 'hyp')))
    return out


def run_job(job, rec):
    a, b = job['a'], job['b']
    W.run_words(job, rec, [a, b], lambda ws, seps: {'a': a, 'b': b, 'words': ws, 'seps': seps})


def judge(case):
    a, b = case['a'], case['b']
    t = W.text(a, case['words'], case['seps'])
    u = tx(a, b, t)
    expect(tx(b, a, u), t, '%s->%s->%s of %r (via %r)' % (a, b, a, t[:60], u[:60]))
