"""romanNumerals, indicNumerals, romanFullStop and indicDandas change just the digits and the dandas of the output."""
import json, os, random
from vf import core, options as O, sources as S, words as W
from vf.core import expect, subseed, tx
from vf.props import C26
from vf.props.C19 import DIGITS

ID = 'C21'
LEVEL = 'exploration'
RULE = 'a case is a text with digits and dandas converted with one of the four options; non-trivial if the option changes the output; each distinct (option, source, target, nativization, text) counts once'
ASSUMPTIONS = ['spec/digits.json, spec/dandas.json']
SHRINK = ('words', 'seps')
DANDAS = json.load(open(os.path.join(core.ROOT, 'spec', 'dandas.json'), encoding='utf8'))
DANDA_SOURCES = ['Devanagari', 'Bengali', 'Gurmukhi', 'Oriya', 'Assamese']      # their danda is U+0964
PIPE_SOURCES = ['HK', 'IAST', 'ISO', 'Itrans']
DOT_SOURCES = ['Telugu', 'Kannada', 'Tamil', 'Malayalam', 'Gujarati', 'Sinhala']           # they write a full stop for the danda
# scripts whose texts keep ASCII digits unless this option asks for their own (the Unicode digits of the block)
OWN = {t: ''.join(chr(b + i) for i in range(10)) for t, b in (('Gurmukhi', 0xA66), ('GurmukhiLoC', 0xA66), ('Malayalam', 0xD66), ('Sinhala', 0xDE6), ('Tamil', 0xBE6), ('Telugu', 0xC66))}
SEP_D = [' । ', ' ॥ ', '।\n', ' ॥\n', ' १२३ ', ' ', ', ', ' ७ ', ' ।। ', ' १०।\n']
# no danda options where '.' is part of letters, or one and the same sign (or word divider) is also the danda
LETTER_STOPS = ['Velthuis', 'OldPersian', 'DivesAkuru', 'Itrans']
# indicDandas keeps the two dandas apart although the plain output writes them alike
ALIKE = ['BatakKaro', 'BatakManda', 'BatakPakpak', 'BatakSima', 'BatakToba', 'KhmerLoCRomanLoC', 'ShanLoCRomanLoC']
SEP_DOT = ['. ', ' .. ', '.\n']
SEP_A = [' 45 ', ' 7\n', ' 90, ']


def targets():
    core.api()
    from aksharamukha import GeneralMap as G
    return [t for t in DANDAS if t not in G.SemiticScripts and t not in ('Inter', 'Hebrew', 'HebrewSBL', 'ISO233', 'ISO259', 'PersianDMG', 'Thaana', 'TolongSiki')]


def jobs(tier, seed):
    big = tier == 'thorough'
    return [{'tgt': t, 'n': 200 if big else 14, 'seed': subseed(seed, t)} for t in targets()]


def run_job(job, rec):
    rng = random.Random(job['seed'])
    t = job['tgt']
    p = S.profile(t) if t in S.ALL else S.profile('Telugu')
    for o in ('romanNumerals', 'indicNumerals', 'romanFullStop', 'indicDandas'):
        if t not in DIGITS and 'Num' in o or t in LETTER_STOPS and 'Num' not in o or t in ALIKE and o == 'indicDandas':
            continue
        for _ in range(job['n']):
            s = rng.choice(DANDA_SOURCES * 2 + PIPE_SOURCES + DOT_SOURCES)
            if o == 'indicDandas' and s in DOT_SOURCES + ['Itrans']:
                s = rng.choice(DANDA_SOURCES)
            while t in ('IPA', 'RomanLoC') and (s == 'Tamil' or s in PIPE_SOURCES):      # Tamil to IPA asks a web service
                s = rng.choice(DANDA_SOURCES)
            if s == t:
                s = 'Devanagari' if t != 'Devanagari' else 'Bengali'
            ws = [w for w in W.rand_words(rng, rng.choice((2, 6, 20)), p) if t not in S.ALL or C26.okw((s, t), w)]
            ws = W.usable(ws, [s]) if s in W.MAIN else ws
            seps = SEP_D + (SEP_A if s not in PIPE_SOURCES else [])
            if '.' not in DANDAS[t][0] + DANDAS[t][1] and (o != 'indicDandas' or s in DANDA_SOURCES):
                seps = seps + SEP_DOT
            if o == 'indicDandas':
                seps = [' ' + x.lstrip() for x in seps if '.' not in x]          # a closing Om is spelt by what follows it
            c = {'opt': o, 'src': s, 'tgt': t, 'nat': rng.random() < .5, 'words': ws, 'seps': [rng.choice(seps) for _ in range(6)]}
            try:
                ch = judge(c)
            except core.Violation:
                rec.check(c)
            else:
                rec.check(c, nontrivial=bool(ch))


def source(c):
    s = c['src']
    x = S.text(s, c['words'], c['seps'] or [' '])
    if c['opt'] == 'indicDandas' and s in PIPE_SOURCES:
        x = x.replace('..', '||').replace('.', '|')
    return x


def judge(c):
    o, s, t = c['opt'], c['src'], c['tgt']
    x = source(c)
    base = tx(s, t, x, c['nat'])
    a, b, pipe = DANDAS[t]
    if o == 'romanNumerals':
        want = base.translate({ord(d): str(i) for i, d in enumerate(DIGITS[t])})
    elif o == 'indicNumerals':
        want = base.translate({ord(str(i)): d for i, d in enumerate(OWN.get(t, DIGITS[t]))})
    elif o == 'romanFullStop':
        want = O.sub([(a, '.'), (b, '..')] if a != b else [(a, '.')])(base)
    else:
        da, db = ('|', '||') if pipe else ('।', '॥')
        want = O.sub([(a, da), (b, db)] if a != b else [(a, da)])(base)
    expect(tx(s, t, x, c['nat'], [], [o]), want, '%s->%s nativize=%s with %s of %r' % (s, t, c['nat'], o, x[:60]))
    return want != base
