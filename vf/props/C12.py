"""Names in any letter case; unknown options are ignored."""
import random
from vf import core, names as N
from vf.core import expect, subseed, tx

ID = 'C12'
LEVEL = 'exploration'
RULE = ('a case is one conversion made with canonical names and again with re-cased script and option names and bogus options mixed in; each distinct '
        '(re-cased call) counts once, if some name really was re-cased or a bogus option added')
ASSUMPTIONS = ['names of Semitic scripts are case-sensitive codes and left out']
SHRINK = ('text', 'pre', 'post', 'bogus')
BOGUS = ['', 'NoSuchOption', 'tamil', 'Tamil', 'RemoveDiacriticsX', 'x', '__name__', '__builtins__', 're', 'GM', 'unicodedata', 'None', 'ThaiOrtho', ' ThaiPhonetic', 'MToAnusvara ', '0']


def recase(s, r):
    k = r.randrange(4)
    if k == 0:
        return s.lower()
    if k == 1:
        return s.upper()
    if k == 2:
        return s.swapcase()
    return ''.join(c.upper() if r.random() < .5 else c.lower() for c in s)


def supported():
    core.api()
    from aksharamukha import GeneralMap as G
    return sorted(set(list(G.IndicScripts) + list(G.LatinScripts)))


def jobs(tier, seed):
    big = tier == 'thorough'
    out = [{'kind': 'names', 'names': supported()[k::8], 'reps': 200 if big else 14, 'seed': subseed(seed, 'n', k)} for k in range(8)]
    pre, post = N.options()
    for where, lst in (('pre', pre), ('post', post)):
        for k in range(0, len(lst), 30):
            out.append({'kind': 'opts', 'where': where, 'names': lst[k:k + 30], 'reps': 120 if big else 10, 'seed': subseed(seed, where, k)})
    return out


def run_job(job, rec):
    r = random.Random(job['seed'])
    al = supported()
    pre, post = N.options()
    for name in job['names']:
        own = [a for a in al if name.lower().startswith(a.lower())]
        for i in range(job['reps']):
            if job['kind'] == 'names':
                s, t = (name, r.choice(al)) if i % 2 else (r.choice(al), name)
                p, q = ([r.choice(pre)] if r.random() < .2 else []), ([r.choice(post)] if r.random() < .2 else [])
            else:
                s, t = r.choice(al), r.choice(al)
                if own and i % 5:
                    if job['where'] == 'post':
                        t = r.choice(own)
                    else:
                        s = r.choice(own)
                p, q = ([name], []) if job['where'] == 'pre' else ([], [name])
            if (s, t) == ('Tamil', 'IPA'):
                continue
            c = {'src': s, 'tgt': t, 'nat': r.random() < .6, 'text': N.sample(s, r), 'pre': p, 'post': q,
                 'vsrc': recase(s, r), 'vtgt': recase(t, r), 'rs': r.randrange(1 << 30), 'bogus': [r.choice(BOGUS)] if r.random() < .5 else []}
            rec.check(c)
    rec.count('names re-cased', len(job['names']))


def judge(c):
    r = random.Random(c['rs'])
    ref = tx(c['src'], c['tgt'], c['text'], c['nat'], c['pre'], c['post'])
    v = [recase(x, r) for x in c['pre']], [recase(x, r) for x in c['post']]
    got = tx(c['vsrc'], c['vtgt'], c['text'], c['nat'], v[0] + c['bogus'], c['bogus'] + v[1])
    expect(got, ref, 'process(%r, %r, nativize=%r, pre_options=%r, post_options=%r) against the canonical names %s, %s, %r, %r' % (
        c['vsrc'], c['vtgt'], c['nat'], v[0] + c['bogus'], c['bogus'] + v[1], c['src'], c['tgt'], c['pre'], c['post']))
