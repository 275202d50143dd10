"""Semitic and other abjads: letters correspond one to one, with vowel points where both scripts have them; finals at word ends."""
import json, os, random, unicodedata as U
from vf import core
from vf.core import expect, subseed, tx

ID = 'C23'
LEVEL = 'exploration'
RULE = 'a case is a text of words over the 22 letters (with vowel points in the pointed kind) converted between two of the scripts; non-trivial if it has at least two letters; each distinct (source, target, nativization, text) counts once'
ASSUMPTIONS = ['spec/abjad.json (22 letters per script, reviewed against the Unicode character names), spec/abjad_vowels.json']
SHRINK = ('words', 'pick')
T = json.load(open(os.path.join(core.ROOT, 'spec', 'abjad.json'), encoding='utf8'))
V = json.load(open(os.path.join(core.ROOT, 'spec', 'abjad_vowels.json'), encoding='utf8'))
U_ = json.load(open(os.path.join(core.ROOT, 'spec', 'abjad_units.json'), encoding='utf8'))     # letters and letter groups of each script: [transcription, written so from it]
HEB = {'כּ': 'ךּ', 'מ': 'ם', 'נ': 'ן', 'פּ': 'ףּ', 'צ': 'ץ'}
FINAL = {'Hebr': HEB, 'Hebrew': HEB, 'Grek': {'σ': 'ς'}, 'Palm': {'𐡮': '𐡭'},
         'Nbat': dict(zip('𐢁𐢃𐢇𐢍𐢏𐢑𐢓𐢕𐢝', '𐢀𐢂𐢆𐢌𐢎𐢐𐢒𐢔𐢜')), 'Sogo': dict(zip('𐼀𐼂𐼅𐼎𐼕𐼚', '𐼁𐼃𐼆𐼏𐼖𐼛'))}
ARABIC = ('Arab', 'Arab-Fa', 'Arab-Ur', 'Arab-Pa', 'Urdu', 'Shahmukhi', 'ISO233', 'PersianDMG')
HEBREW = ('Hebr', 'Hebrew', 'ISO259', 'HebrewSBL')
ALEF, G, W, Y, P, SH = 0, 2, 5, 9, 16, 20


def letters(a, b, pointed):
    """Letters with one spelling of their own in a that b writes like the other scripts do (g and p have Arabic and Southern variants)."""
    no = {ALEF, W, Y} if pointed else set()          # alef, waw and yod also spell vowels
    if b in ('Arab', 'ISO233') or 'Hebr-Ar' in (a, b) or a in ('Narb', 'Samr', 'Sarb', 'ISO233'):
        no |= {G, P}
    if a == 'HebrewSBL':
        no.add(SH)
    if a in HEBREW and b in ('Ethi', 'Grek', 'Sogd'):
        no.add(P)
    if a in ARABIC and b == 'Latn':
        no.add(ALEF)
    return [i for i in range(22) if i not in no and T[a].count(T[a][i]) == 1]


def doubled(b, w):
    """Words ending in a doubled final-form letter: with dagesh or vowel points Hebrew leaves the plain form (known finding)."""
    return b in ('Hebr', 'Hebrew') and len(w) > 1 and w[-1] == w[-2] and T[b][w[-1]] in HEB


def write(s, w):
    o = []
    for k, (c, v) in enumerate(w):
        x, m = T[s][c], V[s][v] if v else ''
        if k and k == len(w) - 1 and all(U.combining(ch) for ch in m):
            x = FINAL.get(s, {}).get(x, x)
        o.append(x + m)
    return ''.join(o)


def jobs(tier, seed):
    big = tier == 'thorough'
    core.api()
    return [{'a': a, 'n': 200 if big else 14, 'seed': subseed(seed, a)} for a in T] + [{'units': a, 'n': 600 if big else 40, 'seed': subseed(seed, 'u', a)} for a in U_]


def run_job(job, rec):
    rng = random.Random(job['seed'])
    if 'units' in job:
        return units(job['units'], job['n'], rng, rec)
    a = job['a']
    for b in T:
        if a == b:
            continue
        for pointed in (False, True):
            if pointed and (a not in V or b not in V):
                continue
            g = letters(a, b, pointed)
            vs = [v for v in V[a] if v in V[b]] if pointed else ['']
            if rec is not None and not pointed:          # every letter first, inside, last and alone
                sweep = [[[c, '']] for c in g] + [[[g[0], ''], [c, ''], [c, '']] for c in g if not doubled(b, [c, c])]
                rec.check({'a': a, 'b': b, 'words': sweep, 'seps': [' '], 'nat': False}, True)
            for k in range(job['n']):
                ws = [[[rng.choice(g), rng.choice(vs)] for _ in range(rng.choice((1, 2, 3, 4, 7)))] for _ in range(rng.choice((1, 3, 6)))]
                for w in ws:
                    while doubled(b, [c for c, v in w]):
                        w.pop()
                c = {'a': a, 'b': b, 'words': ws, 'seps': [rng.choice((' ', '\n', ' ', '-', '\n\n', ' (', ') ')) for _ in range(4)],
                     'nat': b != 'Latn' and rng.random() < .5}
                rec.check(c, sum(map(len, ws)) > 1)


POINTED, PLAIN = ('Arab', 'Hebr', 'Syr', 'Thaa'), ('Ugar', 'Ethi', 'Grek', 'Narb', 'Sarb', 'Sogd')


def unit_pairs(a):
    """Scripts that have letters of their own for units of a, with those units (points of a that the target does not write are dropped there)."""
    for b in list(U_) + ['Latn']:
        if a != b and not (a.startswith(POINTED) and b in PLAIN):
            us = [u for u in U_[a] if b == 'Latn' or U_[a][u][0] in inverse(b)]
            yield b, us
    yield None, [u for u in U_[a] if U_[a][u][1]]                # from the transcription


def inverse(b):
    return {l: u for u, (l, back) in U_[b].items() if back}


def units(a, n, rng, rec):
    """Every letter and letter group between two letters b and r."""
    for b, us in unit_pairs(a):
        for k in range(n if b in (None, 'Latn') else n // 10):
            pick = us if not k else [rng.choice(us) for _ in range(rng.choice((1, 3, 8)))]
            rec.check({'units': a, 'to': b, 'pick': pick, 'seps': [rng.choice((' ', '\n', '-')) for _ in range(3)]}, True, ['%s %s %s' % (a, u, b) for u in pick])


def unit_text(c):
    a, b, s = c['units'], c['to'], c['seps'] or [' ']
    inv = inverse(b) if b in U_ else None
    glue = lambda t, ws: ''.join((s[i % len(s)] if i else '') + T[t][1] + w + T[t][19] for i, w in enumerate(ws)).replace(' ', '𐎟' if t == 'Ugar' else ' ')
    x, l = glue(a, c['pick']), glue('Latn', [U_[a][u][0] for u in c['pick']])
    if b is None:
        return 'Latn', a, l, x
    return a, b, x, l if b == 'Latn' else glue(b, [inv[U_[a][u][0]] for u in c['pick']])


def join(s, c):
    o = ''
    for i, w in enumerate(c['words']):
        o += (c['seps'][i % len(c['seps'])] if i and c['seps'] else '') + write(s, w)
    return o.replace(' ', '𐎟') if s == 'Ugar' else o          # Ugaritic words are parted by a divider


def judge(c):
    if 'units' in c:
        a, b, x, y = unit_text(c)
        return expect(U.normalize('NFC', tx(a, b, x)), U.normalize('NFC', y), '%s->%s of %r' % (a, b, x[:60]))
    a, b = c['a'], c['b']
    x = join(a, c)
    expect(U.normalize('NFC', tx(a, b, x, c['nat'])), U.normalize('NFC', join(b, c)), '%s->%s nativize=%s of %r' % (a, b, c['nat'], x[:60]))
