"""Options that choose another form of a script: the text in that other form."""
import random, re
from vf import core, gen, words as W
from vf.core import tx, expect, subseed

ID = 'C32'
LEVEL = 'exploration'
RULE = 'a case is a text of generated words; each distinct (option, nativization, source, word) counts once'
ASSUMPTIONS = ['the conversion into the other form (a script name of its own) is taken from the library; C01-C06 and C33 decide it']
SHRINK = ('words',)
PROFILE = gen.Profile(gen.C33, 14, cluster=3)


def lao(t):
    pre = '([\u0ec0\u0ec1\u0ec2\u0ec4]?)'
    for a, b, f in (('ຕ', 'ຕ', 'ດ'), ('ຕ', 'ຖ', 'ດ'), ('ທ', 'ທ', 'ດ'), ('ສ', 'ສ', 'ດ'), ('ປ', 'ປ', 'ບ'), ('ພ', 'ພ', 'ບ')):
        t = re.sub(a + pre + b, lambda m: f + m.group(1) + b, t)
    return t


def raba(t):
    """ba written as assamese ra: no ligatures, and rba is ৰ্ৰ; two joiners in a row are one."""
    t = re.sub('ৰ(?=[ুূ])', 'ৰ\u200c', t)
    t = re.sub('(?<!র)\u09cdৰ', '\u09cd\u200cৰ', t)
    t = re.sub('ৰ\u09cd(?=[রয])', 'ৰ\u200d\u09cd', t)
    t = re.sub('ৰ\u09cd(?!\u200c)', 'ৰ\u09cd\u200c', t)
    return t.replace('র\u09cdৰ', 'ৰ\u09cdৰ')


same = lambda t: t
# option -> (target, form meant, nativization kept, what is done to the form, comparison)
POST = {
    'siddhammukta': ('Siddham', 'SiddhamDevanagari', True, same),
    'siddhamap': ('Siddham', 'SiddhamDevanagari', True, same),
    'egrantamil': ('Grantha', 'GranthaGrantamil', True, same),
    'nepaldevafont': ('Newa', 'Devanagari', True, same),
    'LaoNative': ('Lao', 'Lao2', True, lao),
    'ranjanalantsa': ('Ranjana', 'Tibetan', False, lambda t: t.replace('་', ' ')),
    'ranjanawartu': ('Ranjana', 'Tibetan', False, lambda t: t.replace('་', '࿎ ')),
    'BengaliRaBa': ('Bengali', 'BengaliRaBa', False, raba),
}
PRE = {'siddhammukta': ('Siddham', 'SiddhamDevanagari'), 'egrantamil': ('Grantha', 'GranthaGrantamil')}
SOURCE = {'BalineseSimplified': ('Balinese', 'BalineseSimpleRomanLoC', same), 'JavaneseSimplified': ('Javanese', 'JavaneseSimpleRomanLoC', lambda t: t.replace('jny', 'ny'))}
SOURCES = W.INDIC + ['IAST', 'ISO', 'HK', 'Itrans', 'Velthuis', 'WX', 'Sharada', 'Newa', 'Brahmi']
TARGETS = W.INDIC + ['IAST', 'ISO', 'HK', 'Thai', 'Sharada', 'Tibetan', 'RomanReadable']
KINDS = [('post', o) for o in POST] + [('pre', o) for o in PRE] + [('src', o) for o in SOURCE]


def jobs(tier, seed):
    big = tier == 'thorough'
    js = [{'kind': 'rand', 'n': 200 if big else 40, 'seed': subseed(seed, k)} for k in range(40 if big else 8)]
    js += [{'kind': 'hyp', 'n': 400 if big else 80, 'seed': subseed(seed, 'h', k)} for k in range(8)]
    return js


def make(rng, kind, o, ws):
    ws = [w for w in ws if not isinstance(w, str)]
    if kind == 'post':
        src = rng.choice([s for s in SOURCES if s != POST[o][0]])
        tgt = POST[o][0]
    else:
        src = PRE[o][0] if kind == 'pre' else SOURCE[o][0]
        tgt = rng.choice([t for t in TARGETS if t != src])
    ws = W.usable(ws, [src])
    if not ws:
        return None
    return {'kind': kind, 'opt': o, 'src': src, 'tgt': tgt, 'nat': rng.random() < 0.5, 'words': [W.text('Devanagari', [w], [' ']) for w in ws],
            'sep': rng.choice([' ', '\n', '। ', ', ', ' (x) '])}


def run_job(job, rec):
    keys = lambda c: [c['opt'] + str(c['nat']) + c['src'] + w for w in c['words']]
    if job['kind'] == 'rand':
        rng = random.Random(job['seed'])
        for _ in range(job['n']):
            for kind, o in KINDS:
                c = make(rng, kind, o, W.rand_words(rng, rng.choice((1, 4, 15)), PROFILE))
                if c:
                    rec.check(c, True, keys(c))
    else:
        def to_case(ints):
            rng = random.Random(str(ints))
            kind, o = rng.choice(KINDS)
            return make(rng, kind, o, [w for w, _ in gen.decode(ints, PROFILE)])
        rec.hyp(gen.strategy(1, 8), to_case, job['n'], job['seed'], sub=keys)


def judge(c):
    o, src, tgt, nat = c['opt'], c['src'], c['tgt'], c['nat']
    text = tx('Devanagari', src, c['sep'].join(c['words'])) if src != 'Devanagari' else c['sep'].join(c['words'])
    if c['kind'] == 'post':
        _, alt, keep, f = POST[o]
        got, exp = tx(src, tgt, text, nat, post=[o]), f(tx(src, alt, text, nat and keep))
        if o == 'BengaliRaBa':
            got, exp = (re.sub('\u200c+', '\u200c', x) for x in (got, exp))
        expect(got, exp, '%s->%s with %s of %r: as into %s' % (src, tgt, o, text[:60], alt))
    elif c['kind'] == 'pre':
        alt = PRE[o][1]
        text = tx('Devanagari', alt, c['sep'].join(c['words']))
        expect(tx(src, tgt, text, nat, pre=[o]), tx(alt, tgt, text, nat), '%s->%s with pre-option %s of %r: as from %s' % (src, tgt, o, text[:60], alt))
    else:
        _, alt, f = SOURCE[o]
        expect(tx(src, tgt, text, False, post=[o]), f(tx(src, alt, text)), '%s->%s with %s of %r: as into %s' % (src, tgt, o, text[:60], alt))
