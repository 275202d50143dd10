"""Text and HTML files: a new file with every text converted and nothing else changed."""
import os, random, shutil, warnings
from vf import core, files as F, names as N, sources as S
from vf.core import Violation, expect, subseed

ID = 'C16'
LEVEL = 'exploration'
RULE = ('a case is one generated .txt / .html / .htm file (or page passed as a string, or a file of another type) converted with '
        'transliterate_file; each distinct case counts once; all have letters to convert')
ASSUMPTIONS = ['convert() itself is the oracle for the text of a node', 'indentation added by the HTML printer is not compared (text nodes up to white space)']
SHRINK = ('words',)
NAMES = ['a.txt', 'my text.txt', 'x.docx.txt', 'कमल.txt', 'v1.2.txt', 'a.html', 'a.txt.htm', 'page.htm', 'x.y.html', 'd.txt.d/p.html', 'd.html/p.txt', 'docs.docx/q.txt']
OTHER = ['a.pdf', 'b.md', 'c', 'x.txt.bak', 'html', 'd.txt.d/p.rtf', 'a.doc']


def jobs(tier, seed):
    big = tier == 'thorough'
    return [{'kind': k, 'n': (3000 if big else 90) if k != 'other' else (200 if big else 8), 'seed': subseed(seed, k, i)}
            for k in ('txt', 'html', 'htmlapi', 'other') for i in range(8 if k != 'other' else 2)]


def base(r):
    s = r.choice(S.ALL)
    t = r.choice([x for x in N.all_names() if x not in ('IPA', s)])
    pre, post = N.options()
    pre, post = ([o for o in x if o.lower().startswith(a.lower())] * (r.random() < .7) or x for x, a in ((pre, s), (post, t)))
    return {'src': s, 'tgt': t, 'nat': bool(r.getrandbits(1)), 'pre': [r.choice(pre)] if r.random() < .4 else [],
            'post': [r.choice(post) for _ in range(r.choice((0, 0, 1, 2)))]}


def run_job(job, rec):
    r = random.Random(job['seed'])
    for i in range(job['n']):
        c = dict(base(r), mode=job['kind'])
        if job['kind'] == 'other':
            c['file'] = r.choice(OTHER + ['a.txt', 'b.html'])
            c['exists'] = c['file'] in OTHER
            c['text'] = F.some_text(c['src'], r, 6)
        elif job['kind'] == 'txt':
            c['file'] = r.choice([n for n in NAMES if n.endswith('.txt')])
            ws = S.words(c['src'], r, r.randrange(1, 40))
            c['text'] = S.text(c['src'], ws, [r.choice([' ', '\n', ', ', '\n\n', '\t', ' 12 ', '<b>', ' & ']) for _ in range(5)]) + r.choice(['', '\n', ' '])
        else:
            c['file'] = r.choice([n for n in NAMES if n.endswith(('.html', '.htm'))])
            c['page'] = F.page(c['src'], r)
        rec.check(c)


def listing(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as h:
                out[os.path.relpath(os.path.join(p, f), d)] = h.read()
    return out


def judge(c):
    a = core.api()
    import importlib
    TF = importlib.import_module('aksharamukha.transliterate_file')
    conv = lambda t: a.convert(c['src'], c['tgt'], t, c['nat'], c['pre'], c['post'])
    args = (c['src'], c['tgt'])
    what = '%s->%s nativize=%r pre_options=%r post_options=%r' % (c['src'], c['tgt'], c['nat'], c['pre'], c['post'])
    body = F.source(c['page']) if 'page' in c else c['text']
    if c['mode'] == 'htmlapi':
        try:
            out = a.call(TF.convert_html, c['src'], c['tgt'], body, c['nat'], list(c['pre']), list(c['post']), True)
        except Exception as e:
            raise Violation('convert_html(api mode) %s raised %r' % (what, e))
        F.same(F.events(out), F.expected(c['page'], conv), 'page %s of %r' % (what, body[:200]))
        return
    d = F.scratch()
    try:
        p = os.path.join(d, c['file'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if c.get('exists', True):
            with open(p, 'wb') as f:
                f.write(body.encode('utf8'))
        before = listing(d)
        try:
            a.call(TF.process, c['src'], c['tgt'], p, c['nat'], list(c['pre']), list(c['post']))
        except Exception as e:
            raise Violation('transliterate_file.process(%r) %s raised %r at %s' % (c['file'], what, e, core.where(e)))
        after = listing(d)
        for k, v in before.items():
            if after.get(k) != v:
                raise Violation('%s: the original file %r was changed or removed' % (what, k))
        new = sorted(set(after) - set(before))
        if c['mode'] == 'other':
            expect(new, [], 'files created for %r (exists: %r)' % (c['file'], c['exists']))
            return
        stem, ext = os.path.splitext(c['file'])
        want = stem + '_' + c['src'] + c['tgt'] + ext
        expect(new, [want], 'files created for %r' % c['file'])
        got = after[want].decode('utf8')
        if c['mode'] == 'txt':
            expect(got, conv(c['text']), 'contents of %s (%s)' % (want, what))
        else:
            F.same(F.events(got), F.expected(c['page'], conv), 'contents of %s (%s) from %r' % (want, what, body[:200]))
    finally:
        shutil.rmtree(d)
