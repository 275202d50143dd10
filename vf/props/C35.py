"""Semitic scripts: pointed Thaana, Arabic and Hebrew are read by their charts; every target gets the same reading."""
import random, unicodedata as U
from vf import abjad as A, gen, model, words as W
from vf.core import tx, expect, subseed, api
from vf.phon import *

ID = 'C35'
LEVEL = 'exploration'
RULE = 'a case is a text of words in a Semitic script; each distinct (script, direction or target, word of two letters or more) counts once'
ASSUMPTIONS = ['letters and points as in vf/abjad.py', 'Devanagari into the other targets is decided by C03-C06, C34']
SHRINK = ('words', 'texts')
OUT = ('IPA', 'Devanagari', 'Urdu', 'Shahmukhi', 'Hebrew', 'Thaana', 'RomanLoC', 'Vatteluttu')
POINTED = ('Arab-Fa', 'Arab-Pa', 'Arab-Ur', 'Arab', 'Hebr', 'Hebr-Ar', 'Type', 'Latn', 'Thaa', 'Syre', 'Syrj', 'Syrn', 'Thaana')    # letters of these are not put at random
P = gen.Profile(gen.CALL, 12)


def sources():
    from aksharamukha import GeneralMap as G
    return sorted(set(G.SemiticScripts) - {'Thaa'}) + ['Thaana']


def targets():
    from aksharamukha import GeneralMap as G
    return [t for t in list(G.IndicScripts) + list(G.LatinScripts) if t not in OUT and t != 'RomanSemitic' and t != 'Inter']


def jobs(tier, seed):
    big = tier == 'thorough'
    js = []
    for s in A.SCRIPTS:
        js += [{'kind': k, 'src': s, 'n': 250 if big else 40, 'seed': subseed(seed, s, k, i)} for k in ('read', 'write') for i in range(8 if big else 1)]
        js += [{'kind': 'pairs', 'src': s, 'seed': subseed(seed, s, 'pairs')}]
        js += [{'kind': 'hyp', 'src': s, 'n': 600 if big else 60, 'seed': subseed(seed, s, 'hyp')}]
    for s in sources():
        js += [{'kind': 'into', 'tgt': s, 'n': 12 if big else 2, 'seed': subseed(seed, s, 'into')}]
        js += [{'kind': 'via', 'src': s, 'all': big, 'seed': subseed(seed, s, 'via', i)} for i in range(4 if big else 1)]
    return js


def run(rec, c):
    if c.get('words') or c.get('texts'):
        k = [c['kind'] + c['src'] + c.get('tgt', '') + t for t in c.get('texts') or [A.write(c['src'], w) for w in c['words'] if len(w) > 1]]
        rec.check(c, bool(k), k)


def run_job(job, rec):
    rng = random.Random(job['seed'])
    s, kind = job.get('src'), job['kind']
    if kind == 'into':
        for src in W.INDIC[:] + W.ROMAN:
            if src == 'Devanagari':
                continue
            for _ in range(job['n']):
                ws = [w for w in W.rand_words(rng, 12, P) if not isinstance(w, str) and all(v > -2 for on, v, m in w) and W.usable([w], [src])]
                if ws:
                    c = {'kind': kind, 'src': src, 'tgt': job['tgt'], 'nat': rng.random() < .5, 'words': ws, 'sep': rng.choice([' ', '\n'])}
                    rec.check(c, True, ['into' + src + job['tgt'] + model.render(src, w) for w in ws if len(w) > 1])
        return
    if kind == 'via':
        src = texts(rng, s, 150)
        ts = targets()
        for t in ts:
            run(rec, {'kind': 'via', 'src': s, 'tgt': t, 'texts': rng.sample(src, min(len(src), 60 if job['all'] else 12)), 'sep': rng.choice([' ', '\n'])})
    elif kind in ('read', 'write'):
        for _ in range(job['n']):
            ws = [w for w in (A.random_word(rng, s) for _ in range(60)) if w and (kind == 'read' or A.back_ok(s, w))]
            run(rec, {'kind': kind, 'src': s, 'nat': kind == 'read' and rng.random() < .5, 'words': ws, 'sep': rng.choice([' ', '\n', ' '])})
    elif kind == 'pairs':       # every letter with every vowel, and every two letters
        ws = [[[c, v, 0]] for c in A.LET[s] for v in A.PNT[s]] + [[['', v, 0]] for v in A.INIT[s]]
        ws += [[[c, v, 0], [d, 1, 0]] for c in A.LET[s] for d in A.LET[s] for v in (-1, 0, 3)]
        ws += [[[c, v, 0], ['', x, 0]] for c in A.LET[s] for v in A.PNT[s] for x in A.INIT[s]]
        ws += [[[c, 0, 0], [d, v, 1]] for c in list(A.LET[s])[:4] for d in A.LET[s] for v in A.PNT[s]]
        ws += [[['ب', 0, 0], [d, v, 2]] for d in A.LET[s] if len(d) == 2 and s[:4] == 'Arab' for v in A.PNT[s]]
        ws = [w for w in ws if A.ok(s, w)]
        for i in range(0, len(ws), 120):
            for nat in (False, True):
                run(rec, {'kind': 'read', 'src': s, 'nat': nat, 'words': ws[i:i + 120], 'sep': ' '})
            run(rec, {'kind': 'write', 'src': s, 'nat': False, 'words': [w for w in ws[i:i + 120] if A.back_ok(s, w)], 'sep': ' '})
    else:
        let, pnt, ini = list(A.LET[s]), list(A.PNT[s]), list(A.INIT[s])

        def case(ints):
            ws, w = [], []
            for x in ints:
                a, b = divmod(x, 16)
                c = '' if a % 9 == 8 else let[a % len(let)]
                w.append([c, (pnt if c else ini)[b % len(pnt if c else ini)], int(bool(c) and s[:4] == 'Arab' and a % 7 == 3)])
                if not A.ok(s, w):
                    w.pop()
                if b % 4 == 3 and w:
                    ws.append(w)
                    w = []
            ws += [w] if w else []
            return {'kind': 'read', 'src': s, 'nat': bool(len(ints) % 2), 'words': ws, 'sep': ' '} if ws else None
        rec.hyp(gen.strategy(1, 30), case, job['n'], job['seed'], sub=lambda c: [c['src'] + A.write(s, w) for w in c['words']])


def texts(rng, s, n):
    """Words in script s: Devanagari words without marks, as the library writes them, and letters put at random."""
    ws = [model.render('Devanagari', [[on, v, ''] for on, v, m in w]) for w in W.rand_words(rng, n, P) if not isinstance(w, str) and all(v > -2 for on, v, m in w)]
    out = tx('Devanagari', s, '\n'.join(ws)).split('\n')
    if s not in POINTED:
        al = sorted(set(''.join(out)) - set(' \n'))
        al = [c for c in al if U.category(c)[0] == 'L']
        out += [''.join(rng.choice(al) for _ in range(rng.randint(1, 6))) for _ in range(n)]
    return [t for t in out if t.strip()]


def judge(case):
    s, sep = case['src'], case.get('sep', ' ')
    N = lambda t: U.normalize('NFC', t)
    if case['kind'] == 'via':
        d = sep.join(case['texts'])
        mid = tx(s, 'Devanagari', d)
        return expect(N(tx(s, case['tgt'], d)), N(tx('Devanagari', case['tgt'], mid)), '%s->%s of %r (read %r)' % (s, case['tgt'], d[:60], mid[:60]))
    ws = case['words']
    if case['kind'] == 'into':
        a, b = (sep.join(model.render(x, w) for w in ws) for x in (s, 'Devanagari'))
        return expect(tx(s, case['tgt'], a, case['nat']), tx('Devanagari', case['tgt'], b, case['nat']), '%s->%s of %r' % (s, case['tgt'], a[:60]))
    a = sep.join((A.write if case['kind'] == 'read' else A.final)(s, w) for w in ws)
    b = sep.join((A.native if case['nat'] else A.deva)(s, w) for w in ws)
    if case['kind'] == 'read':
        expect(N(tx(s, 'Devanagari', a, case['nat'])), N(b), '%s->Devanagari of %r' % (s, a[:80]))
    else:
        expect(N(tx('Devanagari', s, b)), N(a), 'Devanagari->%s of %r' % (s, b[:80]))
