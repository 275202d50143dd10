"""Positional numbers keep their digits in every script, and read back."""
import json, os, random
from vf import core, names as N
from vf.core import expect, subseed, tx

ID = 'C19'
LEVEL = 'exploration'
RULE = 'a case is one text of numbers converted between two scripts; each distinct (source, target, nativization, text) counts once'
ASSUMPTIONS = ['digits of each target: spec/digits.json, whose values are those of the Unicode character database (unicodedata.digit)']
SHRINK = ('nums', 'seps')
NOT = ('Inter', 'Kharoshthi', 'OldPersian', 'TolongSiki')
NOSRC = NOT + ('Urdu', 'Shahmukhi')
SEMITIC = {'Hebrew', 'HebrewSBL', 'ISO233', 'ISO259', 'PersianDMG', 'Thaana'}
SEPS = ['\n', '-', '/', '+', '=', '%', '\n\n']
DIGITS = json.load(open(os.path.join(core.ROOT, 'spec', 'digits.json')))


def pairs():
    core.api()
    from aksharamukha import GeneralMap as G
    sem = set(G.SemiticScripts) | SEMITIC
    for s in N.all_names():
        for t in N.all_names():
            if s in NOSRC or t in NOT or (s, t) == ('Tamil', 'IPA') or s in sem and t in ('Urdu', 'Shahmukhi'):
                continue
            yield s, t


def jobs(tier, seed):
    ps = list(pairs())
    random.Random(seed).shuffle(ps)
    k = 48
    return [{'pairs': ps[i::k], 'n': 20 if tier == 'thorough' else 1, 'seed': subseed(seed, i)} for i in range(k)]


def number(r):
    c = r.random()
    if c < .4:
        d = list('0123456789')
        r.shuffle(d)
        return ''.join(d)
    n = r.choice((1, 1, 2, 3, 4, 6, 12, 40))
    return ''.join(r.choice('0123456789' if r.random() < .7 else '01') for _ in range(n))


def run_job(job, rec):
    r = random.Random(job['seed'])
    for s, t in job['pairs']:
        for _ in range(job['n']):
            rec.check({'src': s, 'tgt': t, 'nat': r.random() < .5, 'nums': [number(r) for _ in range(r.choice((1, 2, 5)))],
                       'seps': [r.choice(SEPS) for _ in range(3)]})


def write(s, nums, seps):
    d = DIGITS[s]
    out = []
    for i, n in enumerate(nums):
        if i:
            out.append(seps[(i - 1) % len(seps)] if seps else '-')
        out.append(''.join(d[int(c)] for c in n))
    return ''.join(out)


def judge(c):
    x = write(c['src'], c['nums'], c['seps'])
    expect(tx(c['src'], c['tgt'], x, c['nat']), write(c['tgt'], c['nums'], c['seps']), '%s->%s nativize=%s of the numbers %r' % (c['src'], c['tgt'], c['nat'], x[:60]))
