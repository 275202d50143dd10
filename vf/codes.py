"""Codes and names of languages and scripts (spec/codes.json) and the checks shared by C13 and C14."""
import json, os, random
from . import core, names as N, sources as S
from .core import Violation, expect, subseed, tx

with open(os.path.join(core.ROOT, 'spec', 'codes.json'), encoding='utf8') as f:
    T = json.load(f)
SCHEMES = ['IAST', 'ISO', 'HK', 'Itrans', 'Velthuis', 'WX', 'Titus', 'SLP1', 'IASTPali', 'RomanReadable']
JUNK = ['zz', 'xyz', 'Qaaa', 'Deva2', 'hi-Taml', 'ta-Deva', 'Devanagarii', 'hi_Deva', 'foo-bar', '-', 'q']
PY = {'script_code': ['Deva', 'Taml', 'Syrc'], 'lang_code': ['hi', 'ta'], 'lang_name': ['Hindi', 'Tamil']}


def recase(c, r):
    k = r.randrange(4)
    return c if k == 0 else c.lower() if k == 1 else c.upper() if k == 2 else c.swapcase()


def table(param):
    """[(code, script, may be re-cased)]"""
    out = []
    if param == 'lang_name':
        return [(k, v, False) for k, v in T['names'].items()]
    if param == 'script_code':
        out += [(k, v, k not in ('Syrc', 'Hebr-Ar')) for k, v in T['script'].items()]
        out += [(p + '-' + s, s, False) for p in ('latn', 'Latn', 'en', 'eng') for s in SCHEMES]
    else:
        out += [(k, v, True) for k, v in T['lang'].items()]
        out += [(p + '-' + s, s, False) for p in ('la', 'en', 'eng') for s in SCHEMES]
        out += [(p + '-' + s, v, True) for p in ('sa', 'san', 'pi', 'pli') for s, v in T['sa'].items() if '-' not in s]
    out += [(k, v, True) for k, v in T['combo'].items() if k.count('-') == 1]
    return out


def jobs(params, tier, seed):
    big = tier == 'thorough'
    out = []
    for p in params:
        n = len(table(p))
        for k in range(0, n, 25):
            out.append({'kind': 'code', 'param': p, 'from': k, 'to': k + 25, 'reps': 60 if big else 6, 'seed': subseed(seed, p, k)})
        out.append({'kind': 'unknown', 'param': p, 'n': 400 if big else 60, 'seed': subseed(seed, p, 'u')})
        out.append({'kind': 'auto', 'param': p, 'n': 1500 if big else 120, 'seed': subseed(seed, p, 'a')})
    return out


def run_job(job, rec):
    r = random.Random(job['seed'])
    p = job['param']
    tab = table(p)
    pre, post = N.options()

    def opts(s, t):
        a = [o for o in pre if o.lower().startswith(s.lower())] or pre
        b = [o for o in post if o.lower().startswith(t.lower())] or post
        return [r.choice(a)] if r.random() < .3 else [], [r.choice(b)] if r.random() < .4 else []
    if job['kind'] == 'code':
        for code, name, re in tab[job['from']:job['to']]:
            for i in range(job['reps']):
                o, on, ore = r.choice(tab)
                c1, c2 = (recase(code, r) if re else code), (recase(o, r) if ore else o)
                a, b = ((c1, name), (c2, on)) if i % 2 else ((c2, on), (c1, name))
                if (a[1], b[1]) == ('Tamil', 'IPA'):
                    continue
                x, y = opts(a[1], b[1])
                rec.check({'param': p, 'src': a[0], 'tgt': b[0], 'rsrc': a[1], 'rtgt': b[1], 'nat': r.random() < .5, 'text': N.sample(a[1], r, 6), 'pre': x, 'post': y})
            rec.count('codes of kind ' + p)
    elif job['kind'] == 'auto':
        for i in range(job['n']):
            s = r.choice(S.ALL)
            o, on, ore = r.choice(tab)
            x = S.text(s, S.words(s, r, 5), [' '])
            _, y = opts(s, on)
            rec.check({'param': p, 'src': 'autodetect', 'rsrc': 'autodetect', 'tgt': recase(o, r) if ore else o, 'rtgt': on, 'nat': r.random() < .5, 'text': x, 'pre': [], 'post': y})
    else:
        for i in range(job['n']):
            o = r.choice(tab)[0]
            j = r.choice(JUNK)
            rec.check({'param': p, 'unknown': True, 'src': j if i % 2 else o, 'tgt': o if i % 2 else j, 'nat': False, 'text': 'namaste', 'pre': [], 'post': []})


def judge(c):
    a = core.api()
    call = 'process(%r, %r, …, param=%r)' % (c['src'], c['tgt'], c['param'])
    try:
        with core.Silent():
            got = a.tr.process(c['src'], c['tgt'], c['text'], c['nat'], list(c['post']), list(c['pre']), c['param'])
        err = None
    except Exception as e:
        err = e
    if c.get('unknown'):
        if err is None:
            raise Violation('%s: the unknown code was accepted' % call)
        return
    if err is not None:
        raise Violation('%s raised %s: %s at %s' % (call, type(err).__name__, err, core.where(err)))
    expect(got, tx(c['rsrc'], c['rtgt'], c['text'], c['nat'], c['pre'], c['post']), '%s nativize=%r pre_options=%r post_options=%r of %r against %s, %s' % (
        call, c['nat'], c['pre'], c['post'], c['text'][:40], c['rsrc'], c['rtgt']))
