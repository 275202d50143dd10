"""Kharoshthi and Old Persian numbers are written in their additive notations."""
import random
from vf import core
from vf.core import expect, subseed, tx
from vf.props.C19 import DIGITS

ID = 'C20'
LEVEL = 'exploration'
RULE = 'a case is one text of numbers converted into Kharoshthi or Old Persian; each distinct (source, target, nativization, text) counts once'
ASSUMPTIONS = ['numbers without leading zeros, at least 1; Kharoshthi below 10**12, Old Persian below 10**5']
SHRINK = ('nums', 'seps')
SEPS = ['\n', '-', '/', '+', '=', '%', '\n\n']
NOSRC = ('Urdu', 'Shahmukhi')


def kharoshthi(n):
    """Signs of 1-4, 10, 20 are added up; those of 100 and 1000 are multiplied by the number before them (left out if 1)."""
    if n >= 1000:
        return (kharoshthi(n // 1000) if n // 1000 > 1 else '') + '\U00010A47' + kharoshthi(n % 1000)
    if n >= 100:
        return (kharoshthi(n // 100) if n // 100 > 1 else '') + '\U00010A46' + kharoshthi(n % 100)
    return add(n, [(20, '\U00010A45'), (10, '\U00010A44'), (4, '\U00010A43'), (3, '\U00010A42'), (2, '\U00010A41'), (1, '\U00010A40')])


def add(n, signs):
    out = ''
    for v, s in signs:
        while n >= v:
            out += s
            n -= v
    return out


def oldpersian(n):
    return add(n, [(100, '\U000103D5'), (20, '\U000103D4'), (10, '\U000103D3'), (2, '\U000103D2'), (1, '\U000103D1')])


NUM = {'Kharoshthi': kharoshthi, 'OldPersian': oldpersian}
TOP = {'Kharoshthi': 12, 'OldPersian': 5}


def jobs(tier, seed):
    big = tier == 'thorough'
    core.api()
    out = []
    ss = [s for s in DIGITS if s not in NOSRC]
    for t in NUM:
        for k in range(4):
            out.append({'kind': 'upto', 'tgt': t, 'lo': k, 'step': 4, 'max': 10000 if big else 1500, 'seed': subseed(seed, t, k)})
        for i in range(8):
            out.append({'kind': 'rand', 'tgt': t, 'srcs': ss[i::8], 'n': 200 if big else 12, 'seed': subseed(seed, t, i, 'r')})
    return out


def number(r, t):
    k = r.randint(1, TOP[t])
    if r.random() < .3:
        return int(r.choice('123456789') + ''.join(r.choice('01') for _ in range(k - 1)))
    return r.randint(1, 10 ** k - 1)


def run_job(job, rec):
    r = random.Random(job['seed'])
    t = job['tgt']
    ss = [s for s in DIGITS if s not in NOSRC]
    if job['kind'] == 'upto':
        ns = list(range(1 + job['lo'], job['max'] + 1, job['step']))
        r.shuffle(ns)
        for i in range(0, len(ns), 12):
            rec.check({'src': r.choice(('Devanagari', 'IAST', r.choice(ss))), 'tgt': t, 'nat': r.random() < .5, 'nums': ns[i:i + 12], 'seps': ['\n', '-', '+']})
    else:
        for s in job['srcs']:
            for _ in range(job['n']):
                ns = [number(r, t) for _ in range(r.choice((1, 2, 5)))]
                if r.random() < .3:
                    ns.append(int(str(ns[0])[:2]))      # a number written inside another
                rec.check({'src': s, 'tgt': t, 'nat': r.random() < .5, 'nums': ns, 'seps': [r.choice(SEPS) for _ in range(3)]})


def judge(c):
    d = DIGITS[c['src']]
    seps = c['seps'] or ['-']
    x = e = ''
    for i, n in enumerate(c['nums']):
        if i:
            x += seps[(i - 1) % len(seps)]
            e += seps[(i - 1) % len(seps)]
        x += ''.join(d[int(k)] for k in str(n))
        e += NUM[c['tgt']](n)
    expect(tx(c['src'], c['tgt'], x, c['nat']), e, '%s->%s nativize=%s of the numbers %r' % (c['src'], c['tgt'], c['nat'], x[:60]))
