"""Converting a script to itself: unchanged without options; otherwise the same as going through Devanagari. 'Ignore' and '' change nothing."""
import random
from vf import core, names as N
from vf.core import expect, subseed, tx

ID = 'C25'
LEVEL = 'exploration'
RULE = ('a case is one text converted within its script (or to Ignore / the empty target); non-trivial if it contains a letter; each distinct '
        '(script, options, text) counts once')
ASSUMPTIONS = ['ISO259, HebrewSBL, PersianDMG and ISO233 are re-spelled by a self-conversion and left out; Hebrew, Urdu, Shahmukhi, Thaana and Lao are left '
               'out of the comparison with the route through Devanagari']
SHRINK = ('text',)
NOID = {'ISO259', 'HebrewSBL', 'PersianDMG', 'ISO233'}
NOVIA = {'Hebrew', 'Lao', 'Urdu', 'Shahmukhi', 'Thaana'}
NOOPT = {'SoyomboFinals', 'ranjanalantsa', 'ranjanawartu', 'siddhamap', 'siddhammukta', 'BengaliRaBa', 'BalineseSimplified', 'JavaneseSimplified'}
GENERAL = ['RemoveDiacritics', 'romanNumerals', 'indicNumerals', 'romanFullStop']


def jobs(tier, seed):
    big = tier == 'thorough'
    core.api()
    from aksharamukha import GeneralMap as G
    out = []
    for s in N.all_names():
        if s not in NOID:
            out.append({'kind': 'same', 'script': s, 'n': 500 if big else 24, 'seed': subseed(seed, s)})
        if s in G.IndicScripts and s not in NOVIA:
            out.append({'kind': 'via', 'script': s, 'n': 120 if big else 6, 'seed': subseed(seed, s, 'via')})
    for k in range(8):
        out.append({'kind': 'hyp', 'n': 1500 if big else 150, 'seed': subseed(seed, 'hyp', k)})
    return out


def run_job(job, rec):
    r = random.Random(job['seed'])
    if job['kind'] == 'same':
        s = job['script']
        for i in range(job['n']):
            x = N.wild(s, r)
            if i % 4 == 3:
                rec.check({'mode': 'same', 'script': s, 'tgt': r.choice(['Ignore', '']), 'nat': r.random() < .5, 'text': x}, bool(x.strip()))
            else:
                rec.check({'mode': 'same', 'script': s, 'tgt': s, 'nat': False, 'text': x}, bool(x.strip()))
    elif job['kind'] == 'hyp':
        from hypothesis import strategies as st
        al = [a for a in N.all_names() if a not in NOID]
        rec.hyp(st.tuples(st.sampled_from(al), st.text(max_size=30)), lambda z: {'mode': 'same', 'script': z[0], 'tgt': z[0], 'nat': False, 'text': z[1]},
                job['n'], job['seed'], nontrivial=lambda c: bool(c['text'].strip()))
    else:
        s = job['script']
        own = [o for o in N.options()[1] if o.lower().startswith(s.lower()) and o not in NOOPT]
        for o in [''] * 6 + own + GENERAL:
            for i in range(job['n']):
                rec.check({'mode': 'via', 'script': s, 'nat': bool(i % 2) or not o, 'post': [o] if o else [], 'text': N.sample(s, r)})


def judge(c):
    s = c['script']
    if c['mode'] == 'same':
        expect(tx(s, c['tgt'], c['text'], c['nat']), c['text'], 'process(%r, %r, nativize=%r)' % (s, c['tgt'], c['nat']))
    else:
        a = tx(s, s, c['text'], c['nat'], [], c['post'])
        b = tx('Devanagari', s, tx(s, 'Devanagari', c['text']), c['nat'], [], c['post'])
        expect(a, b, '%s->%s nativize=%r options=%r of %r against the route through Devanagari' % (s, s, c['nat'], c['post'], c['text'][:60]))
