"""Reference model: renders an abstract word in a script from frozen letter charts + composition rules.

A word is a list of syllables (onset, vowel, mark):
  onset: tuple of consonant names (Devanagari letters of vf.phon) - may be empty (independent vowel)
  vowel: index into VOWELS/SIGNS, or -1 for "no vowel" (virama; only with an onset)
  mark:  '' or one of MARKS
"""
import json, os, re
from .phon import *

_charts = None


def charts():
    global _charts
    if _charts is None:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'letters_raw.json'), encoding='utf8') as f:
            _charts = json.load(f)
    return _charts


AVA = 'ऽ'


def dev(word):
    out = []
    for on, v, m in word:
        if on:
            out.append(VIR.join(on) + (VIR if v < 0 else SIGNS[v]) + m)
        else:
            out.append(VOWELS[v] + m)
    return ''.join(out)


ASP_PAIR = set('कगचजटडतदपब')     # unaspirated plosives: + ha would read as the aspirate in romanization
IU = (2, 4)


def roman(ch, word, extra=''):
    """Linear romanization with the documented separator `_` (k_h, a_i, a_u)."""
    c, v_, s_, mk = ch['cons'], ch['vow'], ch['sign'], ch['mark']
    out = []
    prev_a = False
    for on, v, m in word:
        if on:
            for i, x in enumerate(on):
                if i and x == 'ह' and (on[i - 1] in ASP_PAIR or on[i - 1] == extra):
                    out.append('_')
                out.append(c[x])
            out.append('' if v < 0 else s_[SIGNS[v]])
        else:
            if prev_a and v in IU:
                out.append('_')
            out.append(v_[VOWELS[v]])
        out.append(mk[m] if m else '')
        prev_a = (v == 0 and not m)
    return ''.join(out)


def linear(ch, word):
    c, v_, s_, mk, vir = ch['cons'], ch['vow'], ch['sign'], ch['mark'], ch['vir']
    out = []
    for on, v, m in word:
        if on:
            out.append(vir.join(c[x] for x in on))
            out.append(vir if v < 0 else s_[SIGNS[v]])
        else:
            out.append(v_[VOWELS[v]])
        out.append(mk[m] if m else '')
    return ''.join(out)


# ------------------------------------------------------------------ orthographic rules of the main scripts
def _flat(word):
    """Split a word into units: ('V', idx, mark) or ('S', onset, vidx, mark)."""
    return word


def shift(ch, word, diac, join=None):
    """Linear rendering where trailing diacritics `diac` of the last onset letter follow the vowel sign,
    and those of a non-final onset letter follow the virama."""
    c, v_, s_, mk, vir = ch['cons'], ch['vow'], ch['sign'], ch['mark'], ch['vir']
    out = []
    for on, v, m in word:
        if not on:
            out.append(v_[VOWELS[v]])
        else:
            for i, x in enumerate(on):
                f = c[x]
                last = i == len(on) - 1
                sg = (vir if v < 0 else s_[SIGNS[v]]) if last else vir
                d = ''
                if f[-1] in diac and sg:
                    f, d = f[:-1], f[-1]
                out.append(f + sg[:1] + d + sg[1:])
                if not last and join:
                    out.append(join(on, i))
        out.append(mk[m] if m else '')
    return ''.join(out)


def tamil(ch, word):
    return shift(ch, word, '²³⁴')


CHILLU = {'ण': ('ൺ', 'टठडढणमयव'), 'न': ('ൻ', 'तथदधनमयरवऱ'), 'र': ('ർ', 'यर'), 'ल': ('ൽ', 'पमयलव'),
          'ळ': ('ൾ', 'ळयर'), 'ऩ': ('ഩ\u200d്', 'तथदधनमयरवऱ')}


def malayalam(ch, word, first=True):
    """Syllable-final ṇ n r l ḷ become chillu letters unless they join the following consonant."""
    vir = ch['vir']
    c = ch['cons']
    out = []
    for on, v, m in word:
        t = shift(ch, [(on, v, m)], '·')
        if on and not first and on[0] in CHILLU and (len(on) > 1 or v < 0):
            chl, keep = CHILLU[on[0]]
            nxt = on[1:]
            if not nxt:
                joins = False
            else:
                joins = NUKTA_BASE.get(nxt[0], nxt[0]) in keep      # nukta letters behave as their base letter
                if joins and nxt[0] not in NUKTA_BASE and len(nxt) > 1 and NUKTA_BASE.get(nxt[1], nxt[1]) == nxt[0]:
                    joins = False
            if not joins:
                head = c[on[0]] + vir
                assert t.startswith(head), (t, head)
                t = chl + t[len(head):]
        out.append(t)
        first = False
    return ''.join(out)


def kannada(ch, word):
    vir = ch['vir']
    s = []
    for on, v, m in word:
        t = linear(ch, [(on, v, m)])
        if len(on) > 1:
            t = ch['cons'][on[0]]
            for x in on[1:]:
                f = ch['cons'][x]
                t += vir + ('\u200c' if f.endswith('಼') and f[0] not in 'ಫಜ' else '') + f
            t += (vir if v < 0 else ch['sign'][SIGNS[v]]) + (ch['mark'][m] if m else '')
        s.append(t)
    return ''.join(s)


def sinhala(ch, word):
    def join(on, i):
        a, b = on[i], ch['cons'][on[i + 1]][0]
        if b in 'යර' and not (a == 'र'):
            return '\u200d'
        if a == 'क' and on[i + 1] == 'ष':
            return '\u200d'
        return ''
    return shift(ch, word, '·', join).replace('ජ්ඤ', 'ඥ')


KHANDA_KEEP = 'तथनमयरलव'


def bengali(ch, word, ass=False):
    """Khanda-ta for dead t before a non-joining consonant; Bengali writes ba-phala for v after a consonant and
    keeps b apart from it with ZWNJ."""
    vir, c = ch['vir'], ch['cons']
    out = []
    for on, v, m in word:
        if not on:
            out.append(ch['vow'][VOWELS[v]] + (ch['mark'][m] if m else ''))
            continue
        fs = [c[x] for x in on]
        zw = [False] * len(on)
        if not ass:
            for i in range(1, len(on)):
                if on[i] == 'ब':
                    zw[i] = on[i - 1] not in ('र', 'ब', 'म')
                elif on[i] == 'व':
                    p = c[on[i - 1]]
                    if not (p[-1] == '\u09bc' or on[i - 1] in ('र', 'ब', 'म', 'भ') or (p[-1] == 'ব')):
                        fs[i] = 'ব'
        t = ''
        for i, x in enumerate(on):
            last = i == len(on) - 1
            dead = not last or v < 0
            if i and zw[i]:
                t += '\u200c'
            nf = None if last else (('\u200c' if zw[i + 1] else '') + fs[i + 1])
            if x == 'त' and dead and i == 0 and not (nf and (nf[0] in 'তথনমযরলৰব\u09df' or nf[:2] in ('ভ়', ) or nf[0] == 'ৱ')):
                t += 'ৎ'
                continue
            t += fs[i]
            if dead:
                t += vir
        t += ('' if v < 0 else ch['sign'][SIGNS[v]]) + (ch['mark'][m] if m else '')
        out.append(t)
    return ''.join(out)


def assamese(ch, word):
    return bengali(ch, word, True)


_GUR1 = re.compile('((?:ੜ੍ਹ|[ਕਗਚਜਟਡਤਦਪਬਙਞਣਨਮਯਰਲਵਸਹ\u0a33\u0a36\u0a59-\u0a5e]|[ਕ-ਹ]\u0a3c)\u0a3c*)\u0a4d\\1')
_GURA = [(re.compile(a + '੍' + b), 'ੱ' + b) for a, b in zip('ਕਗਚਜਟਡਤਦਪਬ', 'ਖਘਛਝਠਢਥਧਫਭ')]


def gurmukhi(ch, word):
    """Doubling (also of an aspirate by its unaspirated partner) is written with addak."""
    s = _GUR1.sub('ੱ\\1', linear(ch, word))
    for a, b in _GURA:
        s = a.sub(b, s)
    return s


def iast(ch, word):
    return roman(ch, word).replace('a_i', 'aï').replace('a_u', 'aü')


def iso(ch, word):
    return roman(ch, word).replace('a_', 'a:')


def roman_ii(ch, word):
    """Velthuis, Aksharaa: long vowels are written by doubling, so a + ii / uu is separated too."""
    s = []
    pa = False
    for syl in word:
        on, v, m = syl
        if not on and pa and v in (3, 5):
            s.append('_')
        elif not on and pa and v in (2, 4):
            s.append('_')
        s.append(roman(ch, [syl], '\u095a' if ch['cons']['\u095a'] == '.g' else ''))
        pa = (v == 0 and not m)
    return ''.join(s)


def itrans(ch, word):
    s = roman(ch, word, '\u095c')
    return re.sub('(?<=[aAiIuUeo])(RR|LL)(?=[iI])', lambda m: m.group(1)[0] + '_' + m.group(1)[0], s)


def devanagari(ch, word):
    """ṟa keeps its shape before another consonant (ZWNJ), except before y and h."""
    out = []
    for on, v, m in word:
        if not on:
            out.append(VOWELS[v] + m)
            continue
        for i, x in enumerate(on):
            out.append(x)
            last = i == len(on) - 1
            if not last or v < 0:
                out.append(VIR)
                if x == 'ऱ' and not (not last and on[i + 1] in 'यह'):
                    out.append('\u200c')
        out.append(('' if v < 0 else SIGNS[v]) + m)
    return ''.join(out)


RULES = {'Devanagari': devanagari, 'Tamil': tamil, 'Malayalam': malayalam, 'Kannada': kannada, 'Sinhala': sinhala, 'Bengali': bengali,
         'Assamese': assamese, 'Gurmukhi': gurmukhi, 'IAST': iast, 'IASTPali': iast, 'ISO': iso, 'ISOPali': iso,
         'Itrans': itrans, 'Velthuis': roman_ii, 'Aksharaa': roman_ii}


OM = dict(Devanagari='ॐ', Bengali='ওঁ', Assamese='ওঁ', Gurmukhi='ੴ', Gujarati='ૐ', Oriya='ଓଁ', Tamil='ௐ', Telugu='ఓం', Kannada='ಓಂ',
          Malayalam='ഓം', Sinhala='ඕං', IAST='oṃ', ISO='ōṁ', HK='oM', Itrans='oM', Velthuis='o.m', WX='oM', Titus='oṃ',
          RussianCyrillic='ом̣', IASTPali='oṃ', ISOPali='oṁ')


def symbols(script, s):
    """Digits, dandas, avagraha, Om and anything else (kept) in `script`."""
    o = charts()[script]['raw']['other']
    return ''.join(o.get(c) or (OM[script] if c == 'ॐ' else c) for c in s)


def render(script, word, nat=False):
    if isinstance(word, str):
        return symbols(script, word)
    ch = charts()[script]['nat' if nat else 'raw']
    f = RULES.get(script) or (roman if ch['rom'] else linear)
    if any(s[1] == -2 for s in word):
        parts, cur = [], []
        for s in word:
            if s[1] == -2:
                parts.append(cur)
                cur = []
            else:
                cur.append(s)
        parts.append(cur)
        out = [f(ch, x) if i == 0 or script != 'Malayalam' else f(ch, x, False) for i, x in enumerate(parts)]
        return ch['other'][AVA].join(out)
    return f(ch, word)


# ------------------------------------------------------------------ words a script cannot keep apart
NEG_IU = ('Itrans', 'Velthuis', 'Aksharaa')


def lossy(script, word):
    """True if `script` has no unambiguous spelling of this word (see DESIGN.md, domain of the lossless properties)."""
    if isinstance(word, str):
        return False
    if len(word) == 1 and not word[0][0] and word[0][1] in (12, 15) and word[0][2] in ('ं', 'ँ'):
        return True                                     # the word Om has its own letter
    for k, (on, v, m) in enumerate(word):
        for i in range(len(on) - 1):
            a, b = on[i], on[i + 1]
            if script == 'Bengali' and b == 'व' and a not in 'रबमभ':
                return True
            if script == 'Gurmukhi' and (NUKTA_BASE.get(b) == a or NUKTA_BASE.get(b) is not None and GEM.get(a) == NUKTA_BASE.get(b)
                                         or (a, b) in GUR_AMB):
                return True
            if script in ('IAST', 'IASTPali', 'ISO', 'ISOPali', 'Titus', 'Gurmukhi', 'Velthuis') and a == '\u095c' and b == 'ह':
                return True
            if script in ('Itrans', 'Aksharaa') and a in 'सश' and b == 'ह':
                return True
        if script in ('HK', 'RussianCyrillic', 'Itrans'):
            amb = ROM_AMB[script]
            if any((on[i], on[i + 1]) in amb for i in range(len(on) - 1)):
                return True
        if script == 'Gurmukhi' and any(on[i] == on[i + 1] and on[i + 2] in (on[i], GEM.get(on[i])) for i in range(len(on) - 2)):
            return True
        if script in ('IASTPali', 'ISOPali') and v == -2:
            return True
        if script == 'Gurmukhi' and any(on[i] == on[i + 1] and on[i] in 'ऩऱऴ\u0958\u095f\u095d' for i in range(len(on) - 1)):
            return True
        if script == 'HK':
            if on and on[-1] == 'ल' and v in (6, 7):
                return True
            if not on and v in (14, 15) and k:
                return True
        if script == 'HK' and not on and v in (6, 7) and k and word[k - 1][1] in (6, 7, 8, 9):
            return True
        if script == 'Tamil' and v == 3 and on[-2:] == ['स', 'र']:
            return True                                 # ஸ்ரீ is read as śrī
        if script == 'Itrans' and (''.join(on).find('दनय') >= 0 or on and on[0] == 'ह' and k and word[k - 1][1] in (16, 17)):
            return True                                 # dny is an alias of GY; .c + h
        if script == 'Sinhala' and any(set(on[i:i + 3]) <= {'र', 'ऱ'} for i in range(len(on) - 2)):
            return True
        if script == 'HK' and not on and v == 12 and m and k and word[k - 1][2]:
            return True
        if k == 0 and not on and v == 12 and m and len(word) > 1 and (script in ('Itrans', 'Velthuis') or word[1][1] == -2):
            return True
        if script == 'Itrans' and v in (2, 3) and len(on) > 1 and on[-1] == on[-2] and on[-1] in 'ऱळ' and (
                len(on) > 2 or not k or word[k - 1][2] or word[k - 1][1] == -2 or word[k - 1][1] > 5 and word[k - 1][1] not in (10, 12)):
            return True
        if script == 'Itrans' and (v in (14, 15) or 'ऩ' in on):
            return True
        if script == 'RussianCyrillic' and any(x in 'ऴऱऩ' for x in on):
            return True
        if script in NEG_IU and k and not on and v >= 0 and not (word[k - 1][1] == 0 and not word[k - 1][2] and (
                v in (2, 4) or v in (3, 5) and script != 'Itrans')):
            return True
    return False


GEM = {'क': 'ख', 'ग': 'घ', 'च': 'छ', 'ज': 'झ', 'ट': 'ठ', 'ड': 'ढ', 'त': 'थ', 'द': 'ध', 'प': 'फ', 'ब': 'भ'}
ROM_AMB = {'HK': {('\u0958', 'ह'), ('\u095c', 'ह')}, 'RussianCyrillic': {('\u095c', 'ह')},
           'Itrans': {('ण', 'ऩ'), ('ज़', 'ह'), ('\u095b', 'ह'), ('\u095a', '\u095f')}}
GUR_AMB = {('श', 'ष'), ('न', 'ऩ'), ('र', 'ऱ'), ('ल', 'ळ'), ('ळ', 'ऴ'), ('ल', 'ऴ'), ('स', 'श'), ('स', 'ष')}
