"""Forward models of the remaining scripts: phonemic alphabets and other scripts with their own joining rules."""
import json, os, re
from . import model
from .phon import *
from .gen import C33

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'rest.json')
SAME = ('Buhid', 'Tagbanwa', 'Makasar')
PLOSIVE = 'कगचजटडतदपब'
ASPIRATE = dict(zip('कगचजटडतदपब', 'खघछझठढथधफभ'))
_t = {}


def table():
    if not _t:
        with open(FILE, encoding='utf8') as f:
            _t.update(json.load(f))
    return _t


def chart(s):
    if s in table():
        return table()[s]
    c = dict(model.charts()[s]['raw'])
    c['vow'] = [c['vow'][x] for x in VOWELS]
    c['sign'] = [c['sign'][x] for x in SIGNS]
    return c


def alpha(s, w):
    """One letter after the other; `_` keeps a plosive and h, and a and i/u, apart where together they would spell another letter."""
    ch = chart(s)
    c, v_, s_, mk = ch['cons'], ch['vow'], ch['sign'], ch['mark']
    o, a = '', False
    for on, v, m in w:
        for i, x in enumerate(on):
            if i and x == 'ह' and on[i - 1] in PLOSIVE + 'ङञ' * s.startswith('Baraha'):
                o += '_'
            o += c[x]
        if on:
            o += '' if v < 0 else s_[v] or v_[0]
        else:
            if a and v_[v].startswith((v_[2], v_[4])):
                o += '_'
            o += v_[v]
        o += mk[m] if m else ''
        a = v == 0 and not m
    return o


def same(s, w):
    """No virama: a doubled letter is written once (Makasar: and the repetition sign stands for a letter written again)."""
    ch = chart(s)
    c, v_, s_, mk = ch['cons'], ch['vow'], ch['sign'], ch['mark']
    o = []
    for on, v, m in w:
        g = [c[x] for i, x in enumerate(on) if not (i and c[x] == c[on[i - 1]] and (x == on[i - 1] or ASPIRATE.get(on[i - 1]) == x))]
        o.append(''.join(g) + (('' if v < 0 else s_[v]) if on else v_[v]) + (mk[m] if m else ''))
    o = ''.join(o)
    if s == 'Makasar':
        o = re.sub('([\U00011EE0-\U00011EF0])([\U00011EF3-\U00011EF6]?)\\1', '\\1\\2\U00011EF2', o)
    return o


def santali(s, w):
    return alpha(s, w).replace('ᱻᱸ', 'ᱸᱻ')


def bataksima(s, w):
    return ''.join(model.linear(model.charts()[s]['raw'], [x]).replace('ᯙᯮ', 'ᯙᯯ' if x[0][-1:] == ['स'] else 'ᯙᯮ') for x in w)


def tokens(s, w):
    """(kind, letter, sounds): C consonant, V vowel after a consonant, I vowel by itself, M mark, X no vowel."""
    ch = chart(s)
    o = []
    for on, v, m in w:
        o += [('C', ch['cons'][x], x) for x in on]
        if v < 0:
            o.append(('X', '', v))
        elif on:
            o.append(('V', ch['sign'][v] if v else ch['vow'][0], v))
        else:
            o.append(('I', ch['vow'][v], v))
        if m:
            o.append(('M', ch['mark'][m], m))
    return o


def apart(s, ts, sign='_'):
    """The sign that keeps plosive + h and a + i/u apart, put in front of the letters."""
    o = []
    for t in ts:
        k, g, x = t
        if o and k == 'C' and x == 'ह' and o[-1][0] == 'C' and o[-1][2] in PLOSIVE:
            g = sign + g
        if o and k == 'I' and 2 <= x <= 5 and o[-1][0] in 'IV' and o[-1][2] == 0 and g.startswith((chart(s)['vow'][2], chart(s)['vow'][4])):
            g = sign + g
        o.append((k, g, x))
    return o


def sora(s, w):
    """The vowel of a consonant without a vowel letter is a; a by itself has a letter of its own."""
    o = ''
    for k, g, x in apart(s, tokens(s, w)):
        o += '' if k == 'V' and x == 0 else '\U000110E6\U000110E8' if k == 'I' and x == 0 else g
    return o


def warang(s, w):
    """Consonants of a cluster are joined; a consonant without a vowel letter has a."""
    o, last, az = '', '', False
    for k, g, x in apart(s, tokens(s, w)):
        if k == 'C' and last == 'C' and g[0] != '_' or k == 'M' and x != 'ः' and last in ('V', 'I') and not az:
            o += '\u200d'
        g = '\U000118C1' if k == 'V' and x == 1 else g.replace('ʾ', '')
        if k == 'V' and x in (6, 7, 8, 9):
            o += '\u200d'
        o += '' if k == 'V' and x == 0 else g
        last, az = k, k == 'V' and x in (0, 1)
    return o


def rohingya(s, w):
    """A vowel by itself stands on a carrier (i and u after another vowel have letters of their own), a doubled letter has a sign."""
    o, last, prev = '', '', None
    for k, g, x in apart(s, tokens(s, w), '\U00010D22'):
        if k == 'C' and last == 'C' and o.endswith(g) or k == 'V' and x in (6, 7, 8, 9) and o.endswith(g[0]):
            g = '\U00010D27' + g[1:]
        if k == 'I' and last in ('V', 'I') and prev != 0 and g[0] in '𐴞𐴟':
            g = '𐴗𐴙'['𐴟𐴞'.index(g[0])] + g[1:]
        elif k == 'I' and x not in (6, 7, 8, 9) and o[-1:] != chart(s)['mark']['ः']:
            g = g.replace('\U00010D22', '').join(['\U00010D22' * (g[0] == '\U00010D22') + '\U00010D00', ''])
        o += g
        last, prev = k, x
    return o


def ipa(s, w):
    """Nasalization is written on the vowel letter before the length mark; visarga echoes the vowel."""
    o = ''
    for k, g, x in apart(s, tokens(s, w)):
        if k == 'M' and x != 'ः':
            o = o[:-1] + g + o[-1] if o.endswith('ː') else o + g
        elif k == 'M':
            o += 'h' + o.rstrip('ː')[-1] + '\u0306'
        else:
            o += g
    return o


NASAL_W = {'𞋕': '𞋦', '𞋛': '𞋧', '𞋀': '𞋨', '𞋞': '𞋪'}
ANUSVARA_W = {'𞋕': '𞋢', '𞋀': '𞋣', '𞋁': '𞋤', '𞋜': '𞋥'}


def wancho(s, w):
    o = alpha(s, w)
    for x, y in NASAL_W.items():
        o = o.replace(x + 'ʿ', y)
    for x, y in ANUSVARA_W.items():
        o = o.replace(x + 'ʾ', y)
    return o.replace('ʿ', '𞋉').replace('ʾ', '𞋝').replace('𞋋𞋗', '𞋡').replace('𞋋𞋎', '𞋠')


def avestan(s, w):
    o, last = '', ''
    for k, g, x in apart(s, tokens(s, w)):
        if k == 'C' and x in 'यव' and last:
            g = '𐬌𐬌' if x == 'य' else '𐬎𐬎'
        o += g
        last = '' if k == 'M' and x != 'ः' else k
    return o.replace('𐬀𐬩', '𐬄').replace('𐬁𐬩', '𐬅')


def meetei(s, w):
    """A consonant without a vowel is a final letter where there is one, else it keeps the virama."""
    ch, o = chart(s), ''
    F = dict(zip('कलमपनतङय', '\uABDB\uABDC\uABDD\uABDE\uABDF\uABE0\uABE1\uABE2'))
    for on, v, m in w:
        for i, x in enumerate(on):
            dead = i + 1 < len(on) or v < 0
            b = x if x in F else None
            if i + 1 == len(on) and 6 <= v <= 9 and b:
                o += F[b] + ch['sign'][v][1:]
                break
            o += F[b] if dead and b else ch['cons'][x] + ch['vir'] * dead
        else:
            o += ('' if v < 0 else ch['sign'][v]) if on else ch['vow'][v]
        o += ch['mark'][m] if m else ''
    return o


def ahom(s, w):
    """Medial r and l after a consonant; the m sign comes before the vowel sign, after its left part."""
    ch, o = chart(s), ''
    for on, v, m in w:
        for i, x in enumerate(on):
            g = ch['cons'][x]
            if i and x in 'रऱल':
                o, g = o[:-1], '\U0001171D' if x == 'ल' else '\U0001171E'
            o += g + ch['vir'] * (i + 1 < len(on) or v < 0)
        t = ('' if v < 0 else ch['sign'][v]) if on else ch['vow'][v]
        if on and v > 0 and t[0] == ch['vir']:
            t = ('\U0001171D' if t[1] == ch['cons']['ल'] else '\U0001171E') + t[2:]
        k = ch['mark'][m] if m else ''
        if v > 0 and m and m != 'ः':
            a = [n for n, y in enumerate(t) if '\U00011720' <= y <= '\U0001172A']
            n = a[0] + (t[a[0]] == '\U00011726') if a else len(t)
            t = t[:n] + k + t[n:]
        else:
            t += k
        o += t
    return o


def tamilgrantha(s, w):
    """Vowel signs written before the consonant follow a mark that keeps the font from moving them."""
    ch, o = chart(s), ''
    J = '\u200B\u200C\u200D\u200C'
    for on, v, m in w:
        for i, x in enumerate(on):
            last = i + 1 == len(on)
            g = ch['cons'][x] + ch['vir'] * (not last or v < 0)
            if last and v in (10, 11):
                g = J + ch['sign'][v] + g
            elif last and v in (12, 13):
                g = J + (ch['sign'][10] if v == 12 else 'ெ') + g + (ch['sign'][1] if v == 12 else 'ள')
            elif last and v >= 0:
                g += ch['sign'][v]
            o += g
        if not on:
            o += ch['vow'][v]
        o += ch['mark'][m] if m else ''
    return o


def chakma(s, w):
    ch, o = chart(s), ''
    for on, v, m in w:
        for i, x in enumerate(on):
            dead = i + 1 < len(on)
            o += ch['cons'][x]
            if dead:
                o += '\U00011133' if ch['cons'][on[i + 1]] in '𑄚𑄢𑄣𑄤' else ch['vir']
        if on:
            if len(on) > 1 and ch['cons'][on[-1]] == ch['cons'][on[-2]] and v != 1:
                o = o[:-2] + ch['vir']
            o += ch['vir'] if v < 0 else '\U00011127' if v == 0 else '' if v == 1 else ch['sign'][v]
        else:
            o += '𑄃𑄧' if v == 0 else '𑄃' if v == 1 else ch['vow'][v]
        o += ch['mark'][m] if m else ''
    return o.replace('𑄣𑄴𑄦', '𑅄')


CHAM_SUB = dict(zip('\uAA22\uAA23\uAA24\uAA25', '\uAA33\uAA34\uAA35\uAA36'))
CHAM_FIN = dict(zip('कगङचतनपयरलषम', '\uAA40\uAA41\uAA42\uAA44\uAA45\uAA46\uAA47\uAA48\uAA49\uAA4A\uAA4B\uAA4C'))
CHAM_AS = dict(zip('खघछझजञथदधफबभसशटठडढण', 'ककचचचनतततपपपषषततततन'))
CHAM_AS['घ'] = 'ग'


def base(s, x):
    """The basic letter written like x."""
    c = chart(s)['cons']
    return next(y for y in 'कखगघङचछजझञतथदधनपफबभमयरलवषसहटठडढणश' if c[y] == c[x]) if c[x] in [c[y] for y in C33] else x


def cham(s, w):
    """Medial y r l v; consonants without a vowel have final forms (those of the unaspirated voiceless letter for most)."""
    ch, o = chart(s), ''
    for on, v, m in w:
        for i, x in enumerate(on):
            g = ch['cons'][x]
            nxt = ch['cons'][on[i + 1]] if i + 1 < len(on) else ch['sign'][v][1:2] if 6 <= v <= 9 else ''
            if i and g in CHAM_SUB:
                g = CHAM_SUB[g]
                f = {'\uAA22': 'य', '\uAA23': 'र', '\uAA24': 'ल'}.get(ch['cons'][x])
            if (nxt or v < 0) and nxt not in CHAM_SUB:
                g = '\uAA4D' if x == 'ह' else CHAM_FIN.get(CHAM_AS.get(base(s, x), base(s, x)), g) if not (i and ch['cons'][x] in CHAM_SUB) else g
            o += g
        t = ('' if v < 0 else ch['sign'][v]) if on else ch['vow'][v]
        if on and 6 <= v <= 9:
            t = CHAM_SUB[t[1]] + t[2:]
        o += t + (ch['mark'][m] if m else '')
    return o


OP_I = dict(zip('𐎭𐎶𐎩𐎺', '𐎮𐎷𐎪𐎻'))
OP_U = dict(zip('𐎭𐎶𐎣𐎥𐎫𐎴𐎼', '𐎯𐎸𐎤𐎦𐎬𐎵𐎽'))
OP_A = '𐎭𐎶𐎣𐎥𐎩𐎺𐎼𐎴𐎫'


def oldpersian(s, w):
    """A syllabary for some consonants before i and u, an alphabet elsewhere."""
    ch, o = chart(s), ''
    for on, v, m in w:
        g = ''.join(ch['cons'][x] for x in on)
        t = ('' if v < 0 else ch['sign'][v]) if on else ch['vow'][v]
        if on and v in (11, 13):
            t = t[2:] if g[-1] in OP_A else t[1:]
        elif on and t:
            t = t.lstrip('_')
            if t[0] in '𐎡𐎢':
                g = g[:-1] + (OP_I if t[0] == '𐎡' else OP_U).get(g[-1], g[-1])
        o += g + t + (ch['mark'][m] if m else '')
    return o




def mongolian(s, w):
    """Candrabindu and anusvara are written before the syllable."""
    ch, o = chart(s), ''
    for on, v, m in w:
        t = ''.join('_' * (i > 0 and x == 'ह' and on[i - 1] in PLOSIVE) + ch['cons'][x] for i, x in enumerate(on))
        t += ('' if v < 0 else ch['sign'][v] or ch['vow'][0]) if on else ch['vow'][v]
        o += ch['mark'][m] + t if m and m != 'ः' else t + (ch['mark'][m] if m else '')
    o = re.sub('\u180b(?=[\u1820-\u1878\u1887-\u18aa])', '', o)
    return o.replace('\u02bc', '\u200b')


LEPCHA_L = {'क': '\u1C01', 'ग': '\u1C04', 'प': '\u1C0F', 'ब': '\u1C14', 'म': '\u1C16', 'ह': '\u1C1E', 'फ़': '\u1C12'}
LEPCHA_FIN = dict(zip('कतनपमरल', '\u1C2D\u1C33\u1C30\u1C31\u1C2E\u1C32\u1C2F'))
LEPCHA_AS = dict(zip('खगघचछजझञणटठडढथदधफबभशषस', 'ककककककक' + 'नन' + 'तततत' + 'ततत' + 'पपप' + 'ततत'))


def lepcha(s, w):
    """Medial y and r, letters of their own for kl gl pl bl ml hl fl, final letters after another letter."""
    ch, o = chart(s), ''
    for on, v, m in w:
        own = v in (6, 7, 8, 9)
        if on and own:
            on, v = on + ['र' if v < 8 else 'ल'], 4 + v % 2
        i = 0
        while i < len(on):
            x = on[i]
            nxt = on[i + 1] if i + 1 < len(on) else ''
            g = ch['cons'][x]
            if nxt == 'ल' and x in LEPCHA_L:
                g = LEPCHA_L[x]
                i += 1
            elif i and x in 'यर':
                g = '\u1C24' if x == 'य' else '\u1C25'
            elif (nxt or v < 0) and nxt not in ('य', 'र'):
                y = next((y for y in C33 if ch['cons'][y] == g.replace('᰷', '')), x)
                g = '' if x == 'ह' else LEPCHA_FIN.get(LEPCHA_AS.get(y, y), ch['cons'][LEPCHA_AS.get(y, y)]) if o else g
                g = g.replace('᰷', '')
                if o and y in ('य', 'व'):
                    g = 'ᰣᰧ' if y == 'य' else 'ᰣᰪ'
                if o and y == 'ङ':
                    g = '\u1C34' if not o.endswith(tuple(ch['sign'][1:])) else '\u1C35'
                if o.endswith('ᰶ') and g in LEPCHA_FIN.values():
                    o, g = o[:-1], g + 'ᰶ'
            o += g
            i += 1
        t = ('' if v < 0 else ch['sign'][v]) if on else ch['vow'][v]
        if m:
            t += '\u1C35' if v > 0 and m != 'ः' and not (own and not on) else ch['mark'][m]
        o += t.replace('ᰧᰶᰵ', 'ᰧᰵᰶ')
    return o


def khomthai(s, w):
    """e ai o are written before the cluster, medial r before its consonant."""
    ch, o = chart(s), ''
    for on, v, m in w:
        g = ch['vir'].join(ch['cons'][x] for x in on)
        if len(on) > 1 and ch['cons'][on[-1]] == 'ร':
            g = 'ฺร' + g[:-2]
        k = ch['mark'][m] if m else ''
        t = ('' if v < 0 else ch['sign'][v]) if on else ch['vow'][v]
        if not on:
            t = {10: 'เอ', 12: 'โอ'}.get(v, t)
        if m in ('ँ', 'ं') and v in (1, 2):
            t, k = t[:-1] + ('ำ' if v == 1 else 'ึ'), ''
        if on and v in (10, 11, 12):
            o += ('ใ' if v == 11 else 'เ') + g + ('ำ' if v == 12 and m in ('ँ', 'ं') else 'า' * (v == 12) + k)
        else:
            o += g + ch['vir'] * (v < 0) + t + k
    return o


def phagspa(s, w):
    """Syllables apart; medial y r v; candrabindu in front."""
    ch, o = chart(s), []
    sub = {'य': '\uA868', 'र': '\uA871', 'व': '\uA867'}
    for on, v, m in w:
        g = ''.join(sub[x] if i else ch['cons'][x] for i, x in enumerate(on)) + (ch['sign'][v] if on else ch['vow'][v])
        o.append((ch['mark'][m] if m else '') + g)
    return ' '.join(o).replace('Ṿ', '').replace('Ṿ'.lower(), '').replace('Ṿ', '').replace('\u1e7e', '').replace('\u1e7f', '')


HOMO = {'KhomThai': range(10, 14), 'OldPersian': range(2, 14)}     # letters that share their shape with another one
SCRIPTS = ('Ariyaka WX-kok Inter TolongSiki Aksharaa BarahaNorth BarahaSouth SLP1 Mro RomanKana SoraSompeng Santali BatakSima Buhid Tagbanwa Makasar WarangCiti HanifiRohingya '
           'IPA Wancho Avestan MeeteiMayek Ahom TamilGrantha Chakma Cham Mongolian Lepcha KhomThai OldPersian PhagsPa').split()
STABLE = [s for s in SCRIPTS if s not in 'WX-kok RomanKana Avestan Lepcha BatakSima KhomThai MeeteiMayek Chakma Cham Mongolian Ahom SoraSompeng OldPersian Ariyaka Aksharaa BarahaNorth BarahaSouth WarangCiti'.split()]
FN = dict.fromkeys(SAME, same)
FN.update(Santali=santali, BatakSima=bataksima, SoraSompeng=sora, WarangCiti=warang, HanifiRohingya=rohingya, IPA=ipa, Wancho=wancho, Avestan=avestan, MeeteiMayek=meetei, Ahom=ahom, TamilGrantha=tamilgrantha, Chakma=chakma, Cham=cham, Mongolian=mongolian, Lepcha=lepcha, KhomThai=khomthai, OldPersian=oldpersian, PhagsPa=phagspa)


def ok(s, w):
    """Words whose spelling in the script the models define."""
    c = chart(s)['cons']
    pl = tuple(c[x] for x in PLOSIVE)
    for i, (on, v, m) in enumerate(w):
        for a, b in zip(on, on[1:]):
            if b == 'ह' and a not in PLOSIVE + 'ङञ' * s.startswith('Baraha') and c[a].endswith(pl):
                return False
            if s in SAME and c[a] == c[b] and not (a == b and a in PLOSIVE + 'ङञणनमयरलवशषसह' or ASPIRATE.get(a) == b):
                return False
            if s == 'Avestan' and a in 'यव' and b in 'यव':
                return False
        if s in ('SoraSompeng',) and i and not on and v == 0 and w[i - 1][2]:
            return False
        if s == 'HanifiRohingya' and (m == 'ः' and i + 1 < len(w) or i > 1 and not on and not w[i - 1][0]):
            return False
        if s == 'Mongolian' and len(w) > 1 and (m and m != 'ः' or not on) or s == 'Mongolian' and m and len(on) > 1 and 'ह' in on:
            return False
        if s == 'Cham' and (v < 0 or len(on) > 1) and 'ह' in on:
            return False
        if s == 'Cham' and v < 0 and len(on) > 1 and c[on[-1]] in CHAM_SUB:
            return False
        if s == 'Chakma' and (len(on) > 1 and v < 0 or 6 <= v <= 9 and (len(on) > 1 or on and on[0] in 'रऱलळऴ') or not on and i and w[i - 1][1] == 1):
            return False
        if s == 'Lepcha' and i and (v < 0 or len(on) > 1 or 6 <= v <= 9 and on) and (len(w[i - 1][0]) > 1 or w[i - 1][2] or 6 <= w[i - 1][1] <= 9):
            return False
        if s == 'TamilGrantha' and v == 3 and on[-2:] == ['स', 'र']:
            return False
        if s == 'Lepcha' and i and w[i - 1][1] == 3 and on[:1] == ['ङ']:
            return False
        if s == 'Lepcha' and (not set(on) <= set(C33) or m and 6 <= v <= 9 or len(on) > 1 and (v < 0 or 6 <= v <= 9)):
            return False
        if s == 'OldPersian' and i and not on and v > 1 and w[i - 1][1] == 0 and not w[i - 1][2]:
            return False
        if s == 'OldPersian' and i and not on and v in (2, 3) and w[i - 1][1] == 5:
            return False
        if s == 'PhagsPa' and (v < 0 or 6 <= v <= 9 or m not in ('', 'ँ') or len(on) == 2 and on[1] not in 'यरव' or i and not on or not set(on) <= set(C33)):
            return False
        if s == 'KhomThai' and i + 1 < len(w) and (m == 'ः' or v == 13):
            return False
        if s == 'KhomThai' and c['\u095d'] in [c[x] for x in on]:
            return False
        if s in HOMO and any(base(s, x) != x or x in 'षङऴ' for x in on) and v in HOMO[s]:
            return False
        if s == 'KhomThai' and len(on) > 1 and any(base(s, x) != x or x in 'षऴ' for x in on):
            return False
        if s == 'OldPersian' and on and v in (11, 13):
            return False
        if s in SAME[:2] and i and not on and 6 <= v <= 9:
            return False
        if s in SAME[:2] and i and on and w[i - 1][1] <= 1 and not w[i - 1][2] and w[i - 1][0] and c[w[i - 1][0][-1]] == c[on[0]]:
            return False
        if s in SAME[:2] and on and v < 2 and m and c[on[-1]] == chart(s)['mark'][m]:
            return False
        if s == 'Ahom' and m and 6 <= v <= 9:
            return False
        if s in SAME and m == 'ः' and on:
            return False
    return True


def render(s, w):
    return FN.get(s, alpha)(s, w)


def readable(s, w):
    """Words made of the letters and signs that are read back as they were, without the spellings that read in two ways."""
    r = table()['read'].get(s)
    if not r:
        return False
    for i, (on, v, m) in enumerate(w):
        if not set(on) <= set(r['C']) or v not in (r['V'] if on else r['I']) or m not in r['M'] or len(on) > 1 and -1 not in r['V']:
            return False
        if v in (12, 13) and m:
            return False            # Om
        if on == ['म'] and v < 0 and i and w[i - 1][1] in (12, 13):
            return False
        if s == 'Avestan' and 6 <= v <= 9:
            return False
        if s == 'WX-kok' and (v == 11 and set(on) & set(NUKTA + ['\u0934', '\u0931', '\u0929', '\u0933']) or len(on) > 1 and '\u0929' in on):
            return False
        if s in ('Aksharaa', 'BarahaNorth', 'BarahaSouth') and (i and not on or any(b == 'ह' and a not in PLOSIVE for a, b in zip(on, on[1:])) or len(on) > 1 and on[0] in 'न\u0929'):
            return False
        if s in ('RomanKana', 'Mongolian') and v in (2, 3) and on and on[-1] in 'रल' or s == 'RomanKana' and 'ग' in on and v == 4:
            return False
        if s == 'KhomThai' and len(on) > 1 and 'र' in on:
            return False
        if s == 'Avestan' and (v == 13 or (len(on) > 1 or len(w) > 1) and set(on) & set('यव')):
            return False
        if s in ('Wancho', 'RomanKana', 'SoraSompeng', 'Avestan', 'WX-kok', 'WarangCiti') and i and not on:
            return False
    return True
