"""Shared machinery of the word-based properties: batches of abstract words, sweeps, text assembly."""
import itertools, random
from . import core, gen, model
from .phon import *

INDIC = ['Devanagari', 'Bengali', 'Assamese', 'Gurmukhi', 'Gujarati', 'Oriya', 'Tamil', 'Telugu', 'Kannada', 'Malayalam', 'Sinhala']
ROMAN = ['IAST', 'ISO', 'HK', 'Itrans', 'Velthuis', 'WX', 'Titus', 'RussianCyrillic', 'IASTPali', 'ISOPali']
MAIN = INDIC + ROMAN

FULL = gen.Profile(gen.CALL, 18, avagraha=True)


def text(script, words, seps, nat=False):
    """Words of the batch rendered in `script`, with their separators."""
    out = []
    for i, w in enumerate(words):
        if i:
            sep = seps[(i - 1) % len(seps)] if seps else ' '
            out.append(model.symbols(script, sep) if '।' in sep or '॥' in sep else sep)
        out.append(model.render(script, w, nat))
    return ''.join(out)


def rr_lossy(word, scripts):
    """Romanization to romanization: spellings that need a separator only one of the two schemes has."""
    if isinstance(word, str):
        return False
    for k, (on, v, m) in enumerate(word):
        for a, b in zip(on, on[1:]):
            if a in NUKTA and b == 'ह':
                return True
            if a == b and a in 'ऱळ' and v in (2, 3) and 'Itrans' in scripts:
                return True
        if 'Velthuis' in scripts and not on and v in (3, 5) and k and word[k - 1][1] == 0 and not word[k - 1][2]:
            return True
    return False


def usable(words, scripts):
    rr = sum(s in ROMAN for s in scripts) > 1
    return [w for w in words if not any(model.lossy(s, w) for s in scripts) and not (rr and rr_lossy(w, scripts))]


def rand_words(rng, n, p):
    out = []
    while len(out) < n:
        out += [w for w, _ in gen.decode([rng.getrandbits(64) for _ in range(12)], p)]
    out = out[:n]
    for i in range(len(out)):
        r = rng.randrange(24)
        if r == 0:
            out[i] = ''.join(DIGITS[rng.randrange(10)] for _ in range(rng.randrange(1, 8)))
        elif r == 1 and p.om:
            out[i] = 'ॐ'
    return out


def sweep_words(name, cons, nv, marks=MARKS, part=0, parts=1):
    """Exhaustive small contexts."""
    A = [['क'], 0, '']
    vs = list(range(nv))
    if name == 'cv':          # every letter x vowel (or dead) x mark, alone and word-medial
        it = ([[[c], v, m]] for c in cons for v in vs + [-1] for m in ([''] + list(marks) if v >= 0 else ['']))
        it = itertools.chain(it, ([A, [[c], v, '']] for c in cons for v in vs + [-1]))
    elif name == 'v':         # independent vowels, alone, in hiatus, with marks
        it = ([[[], v, m]] for v in vs for m in [''] + list(marks))
        it = itertools.chain(it, ([[[c], v, m], [[], v2, m2]] for c in ('क', '') for v in vs for m in [''] + list(marks)
                                  for v2 in vs for m2 in ('', marks[1] if len(marks) > 1 else '')))
        it = ([[list(on) if on != [''] else [], v, m] for on, v, m in w] for w in it)
    elif name == 'ccv':       # every two-letter cluster x vowel
        it = ([[[a, b], v, '']] for a in cons for b in cons for v in vs + [-1])
    elif name == 'cc_mid':    # every cluster word-medially, with a mark
        it = ([A, [[a, b], v, m]] for a in cons for b in cons for v in (0, 1, 2, -1) for m in ('', marks[-1]) if not (v < 0 and m))
    elif name == 'mcv':       # mark before a consonant, vowel + consonant
        it = ([[['क'], v, m], [[c], v2, '']] for v in vs for m in [''] + list(marks) for c in cons for v2 in (0, 2))
    elif name == 'ccc':
        it = ([[[a, b, c], 0, '']] for a in cons for b in cons for c in cons)
    elif name == 'cc_cc':     # two clusters
        it = ([[[a, b], 0, ''], [[c, d], 1, '']] for a in cons for b in cons for c in cons[::5] for d in cons[::3])
    else:
        raise KeyError(name)
    return itertools.islice(it, part, None, parts)


def batches(words, size, rng):
    buf = []
    for w in words:
        buf.append(w)
        if len(buf) == size:
            yield buf
            buf = []
    if buf:
        yield buf


def pick_seps(rng, k=7):
    return [gen.SEPS[rng.randrange(len(gen.SEPS))] for _ in range(k)]


def wkey(words, tag=''):
    return [tag + repr(w) for w in words]


def run_words(job, rec, scripts, mk, p=FULL, sweep_cons=None, nv=None, marks=None, usable_fn=None):
    """Drives rec.check over batches; mk(words, seps) -> case. job: kind in {'rand','sweep','hyp'}."""
    rng = random.Random(job['seed'])
    size = job.get('size', 60)
    usable_ = usable_fn or (lambda ws: usable(ws, scripts))
    if job['kind'] == 'sweep':
        it = sweep_words(job['name'], sweep_cons or p.cons, nv or p.nv, marks or p.marks, job['part'], job['parts'])
        for b in batches(it, size, rng):
            g = usable_(b)
            rec.excluded += len(b) - len(g)
            if g:
                rec.check(mk(g, pick_seps(rng)), True, wkey(g, '/'.join(scripts)))
                rec.count('words', len(g))
    elif job['kind'] == 'rand':
        for i in range(job['n']):
            b = rand_words(rng, rng.choice((1, 2, 3, size, size, size)), p)
            g = usable_(b)
            rec.excluded += len(b) - len(g)
            if g:
                rec.check(mk(g, pick_seps(rng)), True, wkey(g, '/'.join(scripts)))
                rec.count('words', len(g))
    elif job['kind'] == 'hyp':
        def to_case(ints):
            b = gen.decode(ints, p)
            g = usable_([w for w, _ in b])
            rec.excluded += len(b) - len(g)
            if not g:
                return None
            return mk(g, [gen.SEPS[s % len(gen.SEPS)] for _, s in b] or [' '])
        rec.hyp(gen.strategy(1, 24), to_case, job['n'], job['seed'], sub=lambda c: wkey(c['words'], '/'.join(scripts)))
    else:
        raise KeyError(job['kind'])
