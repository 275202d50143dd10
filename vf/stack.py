"""Reference model of the scripts that stack consonants, prepose vowels or use final letters (spec/stack.json charts)."""
import json, os
from .phon import *

_c = None


def charts():
    global _c
    if _c is None:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'stack.json'), encoding='utf8') as f:
            _c = json.load(f)
    return _c


def cluster(ch, on):
    if len(on) == 1:
        return ch['base'][on[0]]
    a, b = on
    t = ch['lig'].get(a + b)
    return ch['base'][a] + ch['sub'][b] if t is None else t


def plain(ch, on, v, m, st):
    c = cluster(ch, on)
    if v < 0:
        return c + ch['vir']
    p, s = ch['sign'][SIGNS[v]]
    if 'tall' in ch and ''.join(on) in ch['tall'] and (v in (1, 12) or v == 13 and st['script'] in ('Burmese', 'Mon')):
        s = s.replace(ch['sign']['ा'][1], ch['tallaa'])
    return p + c + s + ch['mark'][m]


def khmer(ch, on, v, m, st):
    return plain(ch, on, v, m, st).replace('\u17b7\u17c6', '\u17b9')


def finals(table, before_ok=''):
    """A vowelless letter that follows a vowel in the word is written with its final form."""
    def f(ch, on, v, m, st):
        pre = ''
        b = on[0]
        if b in table and (len(on) > 1 or v < 0) and st['i'] and not st['mark'] and not st['dead'] and not st['medial'] and not (
                len(on) > 1 and on[1] in before_ok):
            pre = table[b]
            on = on[1:]
            if not on:
                return pre
        return pre + plain(ch, on, v, m, st)
    return f


def laopali(ch, on, v, m, st):
    """A vowel written before the consonant stands before the last consonant of the cluster."""
    if v < 0 or len(on) < 2:
        return plain(ch, on, v, m, st)
    p, q = ch['sign'][SIGNS[v]]
    return ch['base'][on[0]] + ch['vir'] + p + ch['base'][on[1]] + q + ch['mark'][m]


def thai(ch, on, v, m, st):
    """A vowel written before the consonant stands before the last consonant of the cluster, except that y r l v h (second)
    and s h (first), and any cluster after white space, count as one unit."""
    if v < 0:
        return ''.join(ch['base'][x] + ch['vir'] for x in on)
    p, s = ch['sign'][SIGNS[v]]
    if len(on) == 2:
        a, b = on
        one = b in 'यरलवह' or a in 'सह' or (st['space'] and st['i'] == 0)
        t = (p if one else '') + ch['base'][a] + ch['vir'] + ('' if one else p) + ch['base'][b]
    else:
        t = p + ch['base'][on[0]]
    return (t + s + ch['mark'][m])


RULES = {'Khmer': khmer, 'Balinese': finals({'र': 'ᬃ'}), 'Javanese': finals({'र': 'ꦂ'}), 'Sundanese': finals({'र': 'ᮁ'}),
         'Rejang': finals({'र': '\uA951', 'न': '\uA950'}), 'Thai': thai, 'LaoPali': laopali,
         'Limbu': finals(dict(zip('कङतनपमरल', '\u1930\u1931\u1933\u1934\u1935\u1936\u1937\u1938')), 'यरव')}
LIG = {'Thai': [('าํ', 'ำ'), ('ิํ', 'ึ')], 'LaoPali': [('າໍ', 'ຳ')]}
# scripts without two-letter onsets in the domain; scripts without the vocalic r / l vowels in the domain
NOCL = {'Buginese'}
NOVOC = {'DivesAkuru', 'Kawi', 'MasaramGondi', 'Khojki', 'Rejang', 'Javanese', 'Limbu', 'Sundanese', 'KhamtiShan', 'TaiLaing', 'Shan', 'LaoPali', 'Thai'}


def render(script, word, space=False):
    ch = charts()[script]
    f = RULES.get(script, plain)
    out = []
    st = {'i': 0, 'mark': '', 'dead': False, 'medial': False, 'space': space, 'script': script}
    for k, (on, v, m) in enumerate(word):
        st['i'] = k
        if not on:
            out.append(ch['vow'][VOWELS[v]] + ch['mark'][m])
        else:
            out.append(f(ch, on, v, m, st))
        st['mark'], st['dead'] = m, v < 0
        st['medial'] = script == 'Limbu' and len(on) > 1 and on[1] in 'यरव' and v == 0
    t = ''.join(out)
    for a, b in LIG.get(script, ()):
        t = t.replace(a, b)
    return t


def ok(script, word):
    for k, (on, v, m) in enumerate(word):
        if script == 'GunjalaGondi' and k and len(on) and on[0] in 'चछजझटठडढ' and tuple(word[k - 1][1:]) == (0, '') and word[k - 1][0] and \
                word[k - 1][0][-1] == ('ञ' if on[0] in 'चछजझ' else 'ण'):
            return False    # known finding: the second letter is lost
        if script == 'Kawi' and v == 12 and len(on) > 1 and on[0] in 'पङट' and ''.join(on) not in charts()[script]['tall']:
            return False    # long o over a post-base cluster: either form of the vowel sign
        if len(on) > 1 and script in NOCL:
            return False
        if 6 <= v <= 9 and script in NOVOC:
            return False
    return True


FORWARD = [s for s in charts() if s not in ('Buhid', 'Tagbanwa', 'Makasar', 'BatakSima')]
# reading back and writing again changes nothing (the others have homographs)
STABLE = [s for s in FORWARD if s not in ('Tibetan', 'TibetanLoC', 'DivesAkuru', 'KhamtiShan', 'TaiLaing', 'Shan', 'Rejang', 'Limbu', 'Khojki')]
