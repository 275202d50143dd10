"""Native orthography (nativization on): what changes with respect to the plain spelling of a word in each script."""
import re
from . import model, sources as S, words as W
from .phon import *

VARGA = ['कखगघङ', 'चछजझञ', 'टठडढण', 'तथदधन', 'पफबभम']
REMOVED = 'ʼˇˆ˘·'
REMOVED_TAMIL = 'ˇˆ˘·'


def to_anusvara(w, letters=None, final=True):
    """A nasal before a stop of its class, and (final) a final m, are written as anusvara after an open syllable."""
    w = [[list(on), v, m] for on, v, m in w]
    for k in range(1, len(w)):
        on, v, m = w[k]
        p = w[k - 1]
        if p[1] < 0 or p[2]:
            continue
        if len(on) > 1:
            for g in VARGA:
                if on[0] == g[4] and NUKTA_BASE.get(on[1], on[1]) in (g[:4] if letters is None else letters.get(on[0], '')):
                    p[2] = 'ं'
                    del on[0]
                    break
        elif final and on == ['म'] and v == -1:
            p[2] = 'ं'
            del w[k]
            break
    return w


def from_anusvara(w, letters=None, nukta=False):
    """Anusvara before a stop is written as the nasal of its class."""
    w = [[list(on), v, m] for on, v, m in w]
    for k in range(len(w) - 1):
        on = w[k + 1][0]
        if w[k][2] == 'ं' and on:
            for g in VARGA:
                if (NUKTA_BASE.get(on[0], on[0]) if nukta else on[0]) in (g[:4] if letters is None else letters[g[4]]):
                    w[k][2] = ''
                    on.insert(0, g[4])
                    break
    return w


def swap(w, d):
    return [[[d.get(c, c) for c in on], v, m] for on, v, m in w]


def ok(s, w):
    """In the domain: no nasal cluster after another mark; Tamil: no n that the library's word list might turn dental."""
    if isinstance(w, str):
        return True
    for k, (on, v, m) in enumerate(w):
        if k and len(on) > 1 and w[k - 1][2] and on[0] in 'ङञणनम':
            return False
        if s in ('Bengali', 'Assamese') and k and w[k - 1][2] == 'ं' and on[:1] == ['त'] and (len(on) > 1 or v < 0):
            return False    # khanda ta
        if k and on == ['म'] and v < 0 and w[k - 1][2]:
            return False
        if s == 'Malayalam' and (any(c in NUKTA for c in on) or k and w[k - 1][2] and len(on) > 1 and on[1] == on[0]):
            return False
        if s == 'Kannada' and len(on) > 1 and on[0] in 'ङञणनम' and (on[1] in NUKTA or on[1] in 'ऩऱऴ'):
            return False
        if s == 'Tamil' and ('ऩ' in on or 'न' in on and len(on) > 1 or 'न' in on and k and not (v in (-1, 4, 12, 13, 14, 15) and not w[k - 1][2] and w[k - 1][1] < 16)):
            return False
    return s != 'Multani'


def pre(s, w):
    if s in ('Telugu', 'Kannada'):
        return to_anusvara(w)
    if s == 'Nandinagari':
        return to_anusvara(w, final=False)
    if s in ('Bengali', 'Assamese', 'Oriya', 'Tamil'):
        return from_anusvara(w)
    if s == 'Malayalam':
        return to_anusvara(from_anusvara(w, {'ङ': 'क', 'ञ': 'चछज', 'ण': 'टठडढ', 'न': 'तथदध', 'म': 'प'}, True), {'ङ': 'खगघ', 'म': 'फबभ'})
    return w


REPL = {
    'Telugu': [('\u0C3C', ''), ('\u0952\u200B', '')],
    'Sinhala': [('\u0D81', '\u0D82')],
    'Malayalam': [('\u0D29\u200d\u0D4D', 'ൻ'), ('\u0D29', '\u0D28')],
    'MeeteiMayek': [('ꫢ', 'ꯆ'), ('ꫣ', 'ꯅ'), ('ꫤ', 'ꯇ'), ('ꫥ', 'ꯊ'), ('ꫦ', 'ꯗ'), ('ꫧ', 'ꯙ'), ('ꫨ', 'ꯅ'), ('ꫩ', 'ꯁ'), ('ꫪ', 'ꯁ'), ('\uAAF5', 'ꯍ꯭'),
                    ('ꯑꫫ', 'ꯏ'), ('ꯑꫬ', 'ꯎ'), ('ꫫ', 'ꯤ'), ('ꫬ', 'ꯨ')],
    'Limbu': [('ᤉ', 'ᤈ'), ('ᤊ', 'ᤏ'), ('ᤚ', 'ᤙ'), ('ᤲ', 'ᤱ')],
    'Sundanese': [('᮪ᮻ', 'ᮢᮩ'), ('᮪ᮼ', 'ᮣᮩ'), ('ᮻ', 'ᮛᮩ'), ('ᮼ', 'ᮜᮩ'), ('\u1BBD', '\u1B98')],
    'Modi': [('𑘂', '𑘃'), ('𑘅', '𑘄'), ('𑘱', '𑘲'), ('𑘴', '𑘳'), ('𑘆', '𑘨𑘲'), ('𑘇', '𑘨𑘲'), ('𑘈', '𑘩𑘲'), ('𑘉', '𑘩𑘲'), ('𑘵', '𑘿𑘨𑘲'), ('𑘶', '𑘿𑘨𑘲'),
             ('𑘷', '𑘿𑘩𑘲'), ('𑘸', '𑘿𑘩𑘲')],
    'Khojki': [('\U00011241', '\U00011235\U00011226\U0001122D'), ('\U00011240', '\U00011202')],
    'Gurmukhi': [('ਁ', 'ਂ')],
}


def post(s, t):
    for a, b in REPL.get(s, ()):
        t = t.replace(a, b)
    if s in ('Bengali', 'Assamese', 'Oriya'):
        t = ya(s, t)
    if s == 'Bengali':
        t = t.replace('\u09ad\u09bc', '\u09ac').replace('\u09cd\u200c\u09ac', '\u09cd\u09ac').replace('\u09ce\u09ac', '\u09a4\u09cd\u09ac').replace('\u09ce\u200c\u09ac', '\u09a4\u09cd\u09ac')
    if s == 'Oriya':
        t = re.sub('(?<!\u0b4d)\u0b71', '\u0b2c', t)
    if s == 'Tamil':
        t = t[:1] + re.sub('\u0ba8(?!\u0bcd\u0ba4)', '\u0ba9', t[1:])
    if s == 'Tibetan':
        for a, b in (('\u0f84', ''), ('\u0f5d', '\u0f56'), ('\u0f6a\u0fba', '\u0f62\u0fa6'), ('\u0f56\u0fba', '\u0f56\u0fa6'), ('\u0fa6\u0fba', '\u0fa6\u0fa6')):
            t = t.replace(a, b)
    if s == 'Gurmukhi':
        t = tippi(t)
    if s == 'Saurashtra':
        t = re.sub('([ꢥꢪꢬꢭ])꣄ꢲ', '\\1\uA8B4', t)
    for x in REMOVED_TAMIL if s == 'Tamil' else REMOVED:
        t = t.replace(x, '')
    return t


def ya(s, t):
    """y after another letter is the letter with a dot below; at the start (and in Bengali and Assamese after a virama) it stays plain."""
    y, yy = ('\u0b2f', '\u0b5f') if s == 'Oriya' else ('\u09af', '\u09df')
    out = ''
    for c in t:
        if c == y and out and out[-1] not in '\u09cd\u200c\u200d \n':
            c = yy
        out += c
    return out.replace('\u09cd\u09df', '\u09cd\u09af')


def tippi(t):
    """Nasalisation is tippi after an inherent, i, u and final uu vowel, bindi after the others; a geminate nasal is marked with it too."""
    out = []
    for i, c in enumerate(t):
        if c == 'ਂ' and i and (t[i - 1] in 'ਅਇਉਿੁੂ' or 'ਕ' <= t[i - 1] <= 'ਹ' or t[i - 1] in '\u0a3c\u0a59\u0a5a\u0a5b\u0a5c\u0a5e'):
            c = 'ੰ'
        out.append(c)
    t = ''.join(out)
    return t.replace('ੱਨ', 'ੰਨ').replace('ੱਮ', 'ੰਮ')


def render(s, w):
    """Native spelling of a word."""
    if isinstance(w, str):
        return S.text(s, [w], [])
    return post(s, S.text(s, [pre(s, w)], []))
