"""Alternative spellings and encodings of the letters, by source script."""
import re
from . import model
from .phon import *
from .gen import C33

_BAR = {'cons': {'ख': ['K', 'kh'], 'घ': ['G', 'gh'], 'च': ['c', 'ch'], 'छ': ['C', 'Ch'], 'झ': ['J', 'jh'], 'फ': ['P', 'ph'], 'भ': ['B', 'bh'], 'व': ['v', 'w'], 'श': ['S', 'sh'], '\u095f': ['yx', 'Y'], 'ऱ': ['rx', 'tx'], 'ऴ': ['Lx', 'zh']},
        'vow': {1: ['aa', 'A'], 3: ['ee', 'I'], 5: ['oo', 'U'], 7: ['RU', 'Roo'], 9: ['~lU', '~loo'], 13: ['au', 'ou'], 16: ['~e', '~a'], 17: ['~o']}}
ROMAN = {
    'Itrans': {'cons': {'ङ': ['~N', 'N^'], 'ञ': ['~n', 'JN'], 'छ': ['Ch', 'chh'], 'ष': ['Sh', 'shh'], 'व': ['v', 'w'], '\u095b': ['z', 'J']},
               'two': {'कष': ['kSh', 'x', 'kS', 'kshh'], 'जञ': ['j~n', 'GY', 'dny', 'jJN']},
               'vow': {1: ['A', 'aa'], 3: ['I', 'ii', 'ee'], 5: ['U', 'uu', 'oo'], 6: ['R^i', 'RRi'], 7: ['R^I', 'RRI'], 8: ['L^i', 'LLi'], 9: ['L^I', 'LLI'], 14: ['^e', 'E'], 15: ['^o', 'O'], 16: ['e.c', 'c.e'], 17: ['A.c', 'c.o']},
               'mark': {'ं': ['M', '.n', '.m']}, 'dead': ['', '.h']},
    'BarahaNorth': _BAR, 'BarahaSouth': _BAR,
}
CASE = ('IAST', 'ISO', 'Titus', 'IASTPali', 'ISOPali')
ZJ, ZN = '\u200d', '\u200c'
_TWO = lambda *p: [(a, [b]) for a, b in p]
ENC = {
    'Malayalam': _TWO(('ൺ', 'ണ്' + ZJ), ('ൻ', 'ന്' + ZJ), ('ർ', 'ര്' + ZJ), ('ൽ', 'ല്' + ZJ), ('ൾ', 'ള്' + ZJ), ('ൗ', 'ൌ'), ('ഈ', 'ൟ'), ('\u0d4a', '\u0d46\u0d3e'), ('\u0d4b', '\u0d47\u0d3e')),
    'Kannada': _TWO(('ನ್(?!಼)', 'ೝ'), ('\u0ccb', '\u0cca\u0cd5'), ('\u0cca', '\u0cc6\u0cc2'), ('\u0cc7', '\u0cc6\u0cd5'), ('\u0cc8', '\u0cc6\u0cd6')),
    'Telugu': _TWO(('న్(?!఼)', 'ౝ'), ('\u0c48', '\u0c46\u0c56')),
    'Tamil': [('க்ஷ', ['க்' + ZN + 'ஷ']), ('ஶ்ரீ', ['ஸ்ரீ']), ('ரி', ['ர' + ZN + 'ி']), ('²', ['₂']), ('³', ['₃']), ('⁴', ['₄']), ('\u0bca', ['\u0bc6\u0bbe', '\u0bbe\u0bc6']), ('\u0bcb', ['\u0bc7\u0bbe', '\u0bbe\u0bc7']), ('\u0bcc', ['\u0bc6\u0bd7', '\u0bd7\u0bc6'])],
    'Bengali': [('\u09cb', ['\u09c7\u09be', '\u09be\u09c7']), ('\u09cc', ['\u09c7\u09d7', '\u09d7\u09c7']), ('\u09dc', ['\u09a1\u09bc']), ('\u09dd', ['\u09a2\u09bc']), ('\u09df', ['\u09af\u09bc'])],
    'Devanagari': [('ऍ', ['ॲ'])] + [(chr(a), [b + '\u093c']) for a, b in zip(range(0x958, 0x960), 'कखगजडढफय')],
    'Gurmukhi': [(a, [b + '\u0a3c']) for a, b in zip('\u0a33\u0a36\u0a59\u0a5a\u0a5b\u0a5e', 'ਲਸਖਗਜਫ')],
    'Oriya': _TWO(('\u0b4b', '\u0b47\u0b3e'), ('\u0b4c', '\u0b47\u0b57'), ('\u0b48', '\u0b47\u0b56'), ('\u0b5c', '\u0b21\u0b3c'), ('\u0b5d', '\u0b22\u0b3c')),
    'Sinhala': _TWO(('\u0ddc', '\u0dd9\u0dcf'), ('\u0ddd', '\u0dd9\u0dcf\u0dca'), ('\u0dda', '\u0dd9\u0dca'), ('\u0dde', '\u0dd9\u0ddf')),
}
ENC['Assamese'] = ENC['Bengali']
# scripts outside the main group: compared with what the standard spelling gives
OTHER = {
    'Burmese': _TWO(('သ္သ', 'ဿ')),
    'Grantha': _TWO(('\U00011357', '\U0001134c'), ('\U0001134b', '\U00011347\U0001133e')),
    'Thai': _TWO(('ฏ', 'ฎ')),
    'Tibetan': _TWO(('\u0f83', '\u0f82'), ('\u0f71\u0f72', '\u0f73'), ('\u0f71\u0f74', '\u0f75'), ('\u0f40\u0fb5', '\u0f69')),
    'Limbu': _TWO(('\u1925', '\u1920\u1923')),
}
ENC.update(OTHER)
SOURCES = list(ROMAN) + list(CASE) + list(ENC)


def ok(s, w):
    """Words every spelling of which is unambiguous."""
    if isinstance(w, str):
        return True
    if s in OTHER:
        return all(v >= -1 and v < 14 and (not k or on) and len(on) < 3 and all(x in C33 for x in on) for k, (on, v, m) in enumerate(w))
    if s in ROMAN:
        if s == 'Itrans' and any(a == '\u095b' and b == 'ण' for on, v, m in w for a, b in zip(on, on[1:])):
            return False                                # JN is ñ
        for k, (on, v, m) in enumerate(w):
            if k and not on or 'ह' in on[1:] or v == -2:
                return False
            if s.startswith('Baraha') and (v in (14, 15) or any(x not in C33 and x not in '\u095fऱऴ' for x in on)):
                return False
        if s == 'Itrans' and any(x in '\u095aऩ' for on, v, m in w for x in on):
            return False
    return s.startswith('Baraha') or not model.lossy(s, w)


def roman(s, w, rng):
    ch, alt = model.charts()[s]['raw'], ROMAN[s]
    out = ''
    if isinstance(w, str):
        return rng.choice(['OM', 'AUM', 'oM']) if w == 'ॐ' else model.symbols(s, w)
    for on, v, m in w:
        i = 0
        while i < len(on):
            two = alt.get('two', {}).get(''.join(on[i:i + 2]))
            if two:
                out += rng.choice(two)
                i += 2
            else:
                out += rng.choice(alt['cons'].get(on[i]) or [ch['cons'][on[i]]])
                i += 1
        if v < 0:
            out += rng.choice(alt.get('dead', ['']))
        else:
            out += rng.choice(alt['vow'].get(v) or [(ch['sign'][SIGNS[v]] if on else ch['vow'][VOWELS[v]])])
        if m:
            out += rng.choice(alt.get('mark', {}).get(m) or [ch['mark'][m]])
    return out


def case(t, rng):
    mode = rng.randrange(4)
    up = lambda c: c.upper() if len(c.upper()) == 1 and c.upper().lower() == c else c
    if mode == 0:
        return ''.join(map(up, t))
    if mode == 1:
        return ''.join(up(c) if i == 0 or t[i - 1] in ' \n' else c for i, c in enumerate(t))
    return ''.join(up(c) if rng.random() < 0.4 else c for c in t)


def encoding(s, t, rng):
    rules = ENC[s]
    return re.sub('|'.join('(%s)' % a for a, _ in rules), lambda m: rng.choice([m.group()] + rules[m.lastindex - 1][1] * 2), t)


def spell(s, t, w, rng):
    """Another spelling of word w, whose standard spelling is t."""
    if s in ROMAN:
        return roman(s, w, rng)
    if s in CASE:
        return case(t, rng)
    return encoding(s, t, rng)
