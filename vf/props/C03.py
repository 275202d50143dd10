"""Reference model: Devanagari <-> each main script and romanization spells every word as the charts and the
documented composition rules say."""
from vf import core, words as W, model
from vf.core import tx, expect, subseed

ID = 'C03'
LEVEL = 'exploration'
RULE = ('a case is one text of words (random, Hypothesis-generated, or swept over all letters x vowels x marks, all two-letter '
        'clusters x vowels, hiatus pairs) sent Devanagari->script and script->Devanagari; every distinct word with at least one '
        'letter counts once as non-trivial')
ASSUMPTIONS = ['letter charts in spec/letters_raw.json', 'words a script cannot spell unambiguously are left out (DESIGN.md)']
SCRIPTS = [s for s in W.MAIN if s != 'Devanagari']


def jobs(tier, seed):
    out = []
    big = tier == 'thorough'
    for s in SCRIPTS:
        for name, parts in (('cv', 1), ('v', 1), ('ccv', 4), ('cc_mid', 2), ('mcv', 1)) + ((('ccc', 8), ('cc_cc', 4)) if big else ()):
            for k in range(parts):
                out.append({'kind': 'sweep', 'script': s, 'name': name, 'part': k, 'parts': parts, 'seed': subseed(seed, s, name, k)})
        for k in range(8 if big else 1):
            out.append({'kind': 'rand', 'script': s, 'n': 3000 if big else 500, 'seed': subseed(seed, s, 'rand', k)})
        out.append({'kind': 'hyp', 'script': s, 'n': 2000 if big else 250, 'seed': subseed(seed, s, 'hyp')})
    return out


def run_job(job, rec):
    s = job['script']
    W.run_words(job, rec, [s], lambda ws, seps: {'script': s, 'words': ws, 'seps': seps})


def judge(case):
    s = case['script']
    d = W.text('Devanagari', case['words'], case['seps'])
    t = W.text(s, case['words'], case['seps'])
    expect(tx('Devanagari', s, d), t, 'Devanagari->%s of %r' % (s, d[:60]))
    expect(tx(s, 'Devanagari', t), d, '%s->Devanagari of %r' % (s, t[:60]))
