"""Path independence: converting A->B->C gives the same text as A->C."""
import random
from vf import words as W
from vf.core import tx, expect, subseed

ID = 'C04'
LEVEL = 'exploration'
RULE = ('a case is a text spelled in script A and two further scripts B, C (all ordered triples of the 21 scripts are visited); '
        'each distinct (A, B, C, word) counts once as non-trivial')
ASSUMPTIONS = ['words A, B or C cannot spell unambiguously are left out (DESIGN.md)']


def jobs(tier, seed):
    out = []
    for a in W.MAIN:
        for b in W.MAIN:
            if a != b:
                out.append({'kind': 'triples', 'a': a, 'b': b, 'n': 40 if tier == 'thorough' else 6, 'seed': subseed(seed, a, b)})
    return out


def run_job(job, rec):
    a, b = job['a'], job['b']
    rng = random.Random(job['seed'])
    for c in W.MAIN:
        if c in (a, b):
            continue
        for _ in range(job['n']):
            ws = W.rand_words(rng, rng.choice((1, 3, 40, 40)), W.FULL)
            g = W.usable(ws, [a, b, c])
            rec.excluded += len(ws) - len(g)
            if g:
                rec.check({'a': a, 'b': b, 'c': c, 'words': g, 'seps': W.pick_seps(rng)}, True, ((a, b, c, w) for w in g))


def judge(case):
    a, b, c = case['a'], case['b'], case['c']
    t = W.text(a, case['words'], case['seps'])
    u = tx(a, b, t)
    expect(tx(b, c, u), tx(a, c, t), '%s->%s->%s differs from %s->%s on %r' % (a, b, c, a, c, t[:60]))
