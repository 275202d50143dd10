"""Schwa deletion: RemoveSchwaHindi and the SchwaFinal pre-options."""
import random
from vf import model, words as W, gen
from vf.core import Violation, expect, subseed, tx
from vf.phon import NUKTA

ID = 'C28'
LEVEL = 'exploration'
RULE = 'a case is a text converted with one of the pre-options; non-trivial if the model deletes a vowel; each distinct (option, target, text) counts once'
ASSUMPTIONS = ['the rules of deletion as transcribed from the documentation of the option into units of consonant and vowel']
SHRINK = ('words', 'seps')
SPELL = {'RemoveSchwaHindi': 'Devanagari', 'SchwaFinalGurmukhi': 'Gurmukhi', 'SchwaFinalGujarati': 'Gujarati', 'SchwaFinalBengali': 'Bengali'}
TARGETS = ['IAST', 'ISO', 'Devanagari', 'Itrans', 'Gujarati', 'Gurmukhi', 'Bengali', 'Tamil', 'Malayalam', 'Thai', 'Urdu', 'RomanReadable', 'IPA']
ROWS = ['यरलव', 'नमण', 'शषस', 'कखपफगघबभ', 'टठतथडढदध', 'चछजझ' + NUKTA[3]]
ASP = dict(zip('खघछझठढथधफभ', 'कगचजटडतदपब'))


def atoms(w):
    """[consonant or '', vowel index | None for none, mark, index of unit, index in onset]; units of one consonant each"""
    o = []
    for u, (on, v, m) in enumerate(w):
        if v == -2:
            o.append(None)
        elif not on:
            o.append(['', v, m])
        else:
            o += [[c, None, ''] for c in on[:-1]] + [[on[-1], None if v < 0 else v, m]]
    return o


def split(at):
    r, cur = [], []
    for a in at:
        if a is None:
            r.append(cur)
            cur = []
        else:
            cur.append(a)
    return r + [cur]


def bare(a):
    return a[0] and a[1] == 0 and not a[2]


def full(a):                       # a syllable
    return a[1] is not None


def signed(a):                     # a consonant with a vowel sign
    return a[0] and a[1]


def hindi(w):
    for s in split(atoms(w)):
        n = len(s)
        if n > 3 and full(s[-4]) and bare(s[-3]) and (bare(s[-2]) and s[-1][0] and full(s[-1]) or signed(s[-2]) and s[-1][0] and full(s[-1])):
            s[-3][1] = None
        elif n > 2 and full(s[-3]) and bare(s[-2]) and signed(s[-1]):
            s[-2][1] = None
        if n > 1 and bare(s[-1]):
            if full(s[-2]):
                s[-1][1] = None
            elif n > 2 and full(s[-3]):
                a, b = s[-2][0], s[-1][0]
                ra, rb = [next((i for i, r in enumerate(ROWS) if c in r), None) for c in (a, b)]
                if b in 'शषस' or a == b and a not in ASP or ASP.get(b) == a or ra is not None and rb is not None and ra < rb:
                    s[-1][1] = None
        yield s


def final(w, two):
    for s in split(atoms(w)):
        n = len(s)
        if n > 1 and bare(s[-1]) and (full(s[-2]) or two and n > 2 and full(s[-3])):
            s[-1][1] = None
        yield s


def delete(opt, w):
    if isinstance(w, str):
        return w
    o = []
    for k, s in enumerate(hindi(w) if opt == 'RemoveSchwaHindi' else final(w, opt != 'SchwaFinalBengali')):
        if k:
            o.append([[], -2, ''])
        on = []
        for c, v, m in s:
            if c == '':
                if on:
                    o.append([on, -1, ''])
                o.append([[], v, m])
                on = []
            elif v is None:
                on.append(c)
            else:
                o.append([on + [c], v, m])
                on = []
        if on:
            o.append([on, -1, ''])
    return o


def ok(o, w):
    if isinstance(w, str):
        return True
    if any(v == -2 for on, v, m in w):
        return False
    if o == 'RemoveSchwaHindi' and any('ऱ' in on for on, v, m in w):
        return False                                     # has a joiner
    if o == 'SchwaFinalGurmukhi' and any(NUKTA[5] in on and len(on) > 1 for on, v, m in w):
        return False                                     # is a conjunct itself
    return True


def jobs(tier, seed):
    big = tier == 'thorough'
    out = []
    for o in SPELL:
        for name, parts in (('cv', 1), ('v', 2), ('ccv', 4), ('mcv', 4), ('cc_mid', 3)):
            for k in range(parts if big else 1):
                out.append({'kind': 'sweep', 'opt': o, 'name': name, 'part': k if big else subseed(seed, o, name) % parts, 'parts': parts, 'seed': subseed(seed, o, name, k)})
        out.append({'kind': 'bare', 'opt': o, 'n': 1200 if big else 150, 'seed': subseed(seed, o, 'b')})
        out.append({'kind': 'rand', 'opt': o, 'n': 800 if big else 60, 'seed': subseed(seed, o)})
        out.append({'kind': 'hyp', 'opt': o, 'n': 400 if big else 40, 'seed': subseed(seed, o, 'h')})
    return out


def bare_word(rng, p=W.FULL):
    """Words in which the inherent vowel prevails, as the rules look at several of them in a row."""
    def unit():
        c = rng.choice(p.cons[:34])
        on = [c] if rng.random() < .75 else [rng.choice(p.cons[:34]), rng.choice([c, c] + list(ASP))]
        return [on, 0 if rng.random() < .65 else rng.randrange(p.nv), rng.choice(p.marks) if rng.random() < .1 else '']
    w = [unit() for _ in range(rng.randrange(1, 6))]
    if rng.random() < .15:
        w.insert(rng.randrange(len(w) + 1), [[], rng.randrange(p.nv), ''])
    return w


def run_job(job, rec):
    o = job['opt']
    s = SPELL[o]
    rng = random.Random(job['seed'] + 1)

    def mk(ws, seps):
        return {'opt': o, 'tgt': rng.choice([s] + [t for t in TARGETS if t != s]), 'words': ws, 'seps': seps}
    if job['kind'] == 'bare':
        for _ in range(job['n']):
            ws = [w for w in W.usable([bare_word(rng) for _ in range(rng.choice((1, 4, 30)))], [s]) if ok(o, w)]
            if ws:
                rec.check(mk(ws, W.pick_seps(rng)), any(delete(o, w) != w for w in ws), W.wkey(ws, o))
        return
    W.run_words(job, rec, [s], mk, W.FULL, usable_fn=lambda ws: [w for w in W.usable(ws, [s]) if ok(o, w)])


def judge(c):
    o, t = c['opt'], c['tgt']
    s = SPELL[o]
    x = W.text(s, c['words'], c['seps'])
    y = W.text(s, [delete(o, w) for w in c['words']], c['seps'])
    expect(tx(s, t, x, False, (o,)), y if t == s else tx(s, t, y), '%s->%s of %r with %s' % (s, t, x[:60], o))
    if o == 'RemoveSchwaHindi':
        z = tx(s, s, x, False, (), ('ShowSchwaHindi',))
        expect(z.replace('\u0954', ''), x, 'ShowSchwaHindi of %r without its marks' % x[:60])
