"""Totality: every supported pair, any text, any option name: a string comes back and nothing is raised."""
import random, signal
from vf import core, gen, names as N, words as W
from vf.core import Violation, subseed, tx

ID = 'C07'
LEVEL = 'exploration'
RULE = ('a case is one call of process() on a generated text (words of the source script, scrambled words, arbitrary Unicode, awkward fragments); '
        'each distinct (source, target, nativize, options, text) with a non-blank text counts once as non-trivial')
ASSUMPTIONS = ['Tamil->IPA is left out: it calls a web service']
SHRINK = ('text', 'pre', 'post')
SKIP = {('Tamil', 'IPA')}
UNKNOWN = ['Foo', 'Devanagarii', 'hindi', 'Klingon', 'IAST2', 'xx', '-', 'None', 'Tamil Brahmi', '\u0926']


def jobs(tier, seed):
    big = tier == 'thorough'
    al = N.all_names()
    out = [{'kind': 'pairs', 'src': s, 'reps': 40 if big else 2, 'seed': subseed(seed, s)} for s in al]
    pre, post = N.options()
    for kind, lst in (('pre', pre), ('post', post)):
        for i in range(0, len(lst), 25):
            out.append({'kind': 'opts', 'where': kind, 'names': lst[i:i + 25], 'n': 300 if big else 16, 'seed': subseed(seed, kind, i)})
    for k in range(8):
        out.append({'kind': 'unknown', 'n': 800 if big else 60, 'seed': subseed(seed, 'unk', k)})
        out.append({'kind': 'hyp', 'n': 2000 if big else 200, 'seed': subseed(seed, 'hyp', k)})
        out.append({'kind': 'auto', 'n': 4000 if big else 250, 'seed': subseed(seed, 'auto', k)})
    return out


def run_job(job, rec):
    r = random.Random(job['seed'])
    al = N.all_names()
    k = job['kind']
    if k == 'pairs':
        for t in al:
            if (job['src'], t) in SKIP:
                continue
            for i in range(job['reps']):
                x = N.wild(job['src'], r)
                c = {'src': job['src'], 'tgt': t, 'nat': bool(i % 2), 'text': x, 'pre': [], 'post': []}
                rec.check(c, bool(x.strip()))
        rec.count('ordered pairs', len(al))
    elif k == 'opts':
        for o in job['names']:
            own = [a for a in al if o.lower().startswith(a.lower())]
            for i in range(job['n']):
                s, t = r.choice(al), r.choice(al)
                if own and i % 3 == 0:
                    if job['where'] == 'post':
                        t = r.choice(own)
                    else:
                        s = r.choice(own)
                if (s, t) in SKIP:
                    continue
                x = N.wild(s, r)
                rec.check({'src': s, 'tgt': t, 'nat': bool(i % 2), 'text': x, 'pre': [o] if job['where'] == 'pre' else [],
                           'post': [o] if job['where'] == 'post' else []}, bool(x.strip()))
        rec.count('options', len(job['names']))
    elif k == 'unknown':
        for i in range(job['n']):
            s = r.choice([a for a in W.INDIC if a not in ('Gurmukhi', 'Tamil')])
            x = W.text(s, [w for w, _ in gen.decode([r.getrandbits(64) for _ in range(10)], gen.Profile())], [' ', '\n', ', '])
            u = r.choice(UNKNOWN)
            rec.check({'src': u, 'tgt': r.choice(al), 'nat': False, 'text': x, 'same': True, 'pre': [], 'post': []} if i % 2 else
                      {'src': s, 'tgt': '' if i % 8 == 0 else 'Ignore' if i % 8 == 2 else u, 'nat': bool(i % 4), 'text': x,
                       'same': True, 'pre': [], 'post': []})
    elif k == 'hyp':
        from hypothesis import strategies as st
        strat = st.tuples(st.sampled_from(al), st.sampled_from(al), st.booleans(), st.text(max_size=40))
        rec.hyp(strat, lambda x: None if (x[0], x[1]) in SKIP else
                {'src': x[0], 'tgt': x[1], 'nat': x[2], 'text': x[3], 'pre': [], 'post': []}, job['n'], job['seed'],
                nontrivial=lambda c: bool(c['text'].strip()))
    elif k == 'auto':
        for i in range(job['n']):
            x = N.wild(r.choice(al), r)
            rec.check({'src': 'autodetect', 'tgt': r.choice([a for a in al if a != 'IPA']), 'nat': bool(i % 2), 'text': x, 'pre': [], 'post': [],
                       'mode': i % 4}, bool(x.strip()))


MODES = {1: ('script_code', ['Deva', 'Taml', 'Beng', 'Arab', 'Hebr', 'Latn']), 2: ('lang_code', ['hi', 'ta', 'bn', 'ar', 'th', 'my']),
         3: ('lang_name', ['Hindi', 'Tamil', 'Bengali', 'Thai', 'Burmese'])}


def late(*_):
    raise Violation('the call did not return within 60 s')


def judge(c):
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(60)
    try:
        judge_(c)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def judge_(c):
    if 'mode' in c and c['mode']:
        a = core.api()
        param, ts = MODES[c['mode']]
        t = ts[len(c['text']) % len(ts)]
        try:
            out = a.process(c['src'], t, c['text'], c['nat'], param=param)
        except Exception as e:
            raise Violation('process(%r, %r, %r, param=%r) raised %s: %s at %s' % (c['src'], t, c['text'][:80], param, type(e).__name__, str(e)[:200], core.where(e)))
        if not isinstance(out, str):
            raise Violation('process(%r, %r, …, param=%r) returned %s' % (c['src'], t, param, type(out).__name__))
        return
    out = tx(c['src'], c['tgt'], c['text'], c['nat'], c['pre'], c['post'])
    if core.Silent.printed:
        raise Violation('process(%r, %r, %r, nativize=%r, %r, %r) wrote %r to standard output' % (c['src'], c['tgt'], c['text'][:80], c['nat'], c['pre'], c['post'], core.Silent.printed[:60]))
    if c.get('same'):
        core.expect(out, c['text'], 'process(%r, %r) with an unknown script name must leave the text alone' % (c['src'], c['tgt']))
