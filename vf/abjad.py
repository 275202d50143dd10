"""Pointed Thaana, Arabic and Hebrew: letters and vowel points with their Devanagari values.

A word is a list of (consonant, vowel, doubled): consonant '' for a vowel letter, vowel -1 for none (sukun, sheva);
doubled 2: the shadda after the do chashmi he of an aspirate."""
import unicodedata as U
from .phon import SIGNS, VOWELS

NK = '\u093c'
LET = {
    'Thaana': dict(zip('ހށނރބޅކވމފދތލގޏސޑޒޓޔޕޖޗޙޚޛޞޟޠޡޣޤޥ',
                       'ह ष न र ब ळ क व म फ़ द त ल ग ञ स ड ज़ ट य प ज च ह़ ख़ ध़ स़ द़ त़ झ़ ग़ क़ व़'.split())),
    'Arab': dict(zip('بتثجحخدذرزسشصضطظغفقكلمنهوي', 'ब त थ़ ज ह़ ख़ द ध़ र ज़ स श स़ द़ त़ झ़ ग़ फ़ क़ क ल म न ह व़ य'.split())),
    'Hebr': dict(zip('ב בּ ג ד ה ו ז ח ט י כ כּ ל מ נ ס פ פּ צ ק ר שׁ שׂ ת'.split(), 'व ब ग द ह व़ ज़ ह़ त़ य क क ल म न स फ़ प स़ क़ र श श त'.split())),
}
# vowel number -> point
PNT = {
    'Thaana': dict(zip((0, 1, 2, 3, 4, 5, 14, 10, 15, 12, -1), 'ަ ާ ި ީ ު ޫ ެ ޭ ޮ ޯ ް'.split())),
    'Arab': dict(zip((0, 1, 2, 3, 4, 5, 11, 13, -1), 'َ َا ِ ِي ُ ُو َيْ َوْ ْ'.split())),
    'Hebr': dict(zip((0, 1, 2, 3, 4, 5, 14, 10, 15, 12, -1), 'ַ ָ ִ ִי ֻ וּ ֶ ֵ ֹ וֹ ְ'.split())),
}
INIT = {
    'Thaana': {v: 'އ' + x for v, x in PNT['Thaana'].items() if v >= 0},
    'Arab': dict(zip((0, 1, 2, 3, 4, 5), 'أَ آ إِ إِي أُ أُو'.split())),
    'Hebr': {v: 'א' + x for v, x in PNT['Hebr'].items() if v >= 0},
}
URDU = dict(zip('ک کھ گ گھ چ چھ ج جھ ٹ ٹھ ڈ ڈھ ت تھ د دھ ن پ پھ ب بھ م ی ر ل ش س ہ ق خ غ ز ڑ ڑھ ف'.split(),
                'क ख ग घ च छ ज झ ट ठ ड ढ त थ द ध न प फ ब भ म य र ल श स ह क़ ख़ ग़ ज़ ड़ ढ़ फ़'.split()))
for _s in ('Arab-Ur', 'Arab-Pa'):
    LET[_s] = {**{c: x for c, x in LET['Arab'].items() if c in 'حصضطظث'}, **URDU}
    PNT[_s] = dict(zip((0, 1, 2, 3, 4, 5, 10, 11, 13, -1), 'َ َا ِ ِی ُ ُو ے َیْ َوْ ْ'.split()))
    INIT[_s] = dict(zip((0, 1, 2, 3, 4, 5, 10, 11, 13), 'اَ آ اِ اِی اُ اُو اے اَیْ اَوْ'.split()))
AYN = {'Arab': 'ع', 'Arab-Ur': 'ع', 'Arab-Pa': 'ع', 'Hebr': 'ע'}      # read as a vowel letter with nukta
for _s, _c in AYN.items():
    LET[_s][_c] = ''
SCRIPTS = list(LET)
URD = ('Arab-Ur', 'Arab-Pa')
SHADDA = '\u0651'


def ok(s, w):
    for i, (c, v, d) in enumerate(w):
        p = w[i - 1] if i else None
        if c and (c not in LET[s] or v not in PNT[s]) or not c and v not in INIT[s]:
            return False
        if c and c == AYN.get(s) and (v not in INIT[s] or v in (11, 13) or d):
            return False
        if d and (s[:4] != 'Arab' or not c or c == 'ی'):
            return False
        if i and not c and (p[1] != 0 if s != 'Thaana' else p[1] < 0):      # a vowel letter inside a word: after a short a
            return False
        if s == 'Thaana' and c == 'ށ' and v < 0 and i + 1 < len(w):
            return False
        if s in URD and (i and not c or c == 'ی' and (v < 0 or i and p[1] in (10, 11, 13)) or v == 10 and i + 1 < len(w)):
            return False
        if s in ('Arab', 'Hebr') and i and c in ('ي', 'י') and p[1] in (2, 3) and v < 0 or c in ('و', 'ו') and i and p[1] in (4, 5, 12, 15):
            return False
        if c in ('ي', 'و') and (v < 0 or d) and i and p[1] == 0 or c == 'ו' and v in (5, 12, 15):
            return False
        if s == 'Arab' and c in ('ي', 'و') and i and p[1] in (11, 13):
            return False
    return True


def write(s, w):
    o = ''
    for c, v, d in w:
        o += INIT[s][v] if not c else c[0] + SHADDA * (d == 1) + c[1:] + SHADDA * (d == 2) + PNT[s][v]
    return o


FINAL = dict(zip('כמנפצ', 'ךםןףץ'))


def final(s, w):
    """write(), with the final form of a Hebrew letter that ends a longer word and carries a point."""
    t = write(s, w)
    c, v, d = w[-1]
    if s == 'Hebr' and len(w) > 1 and c and c[0] in FINAL and v not in (3, 5, 12):
        k = len(t) - len(c + PNT[s][v])
        t = t[:k] + FINAL[c[0]] + t[k + 1:]
    return t


def deva(s, w, nat=False):
    o = ''
    for c, v, d in w:
        if c and not LET[s][c]:
            o += VOWELS[v] + NK * (not nat)
        elif not c:
            o += VOWELS[v]
        else:
            x = LET[s][c]
            o += (LET[s][c[0] if s in URD else c] + '्' if d else '') + x + ('्' if v < 0 else SIGNS[v])
    return U.normalize('NFC', o)


def random_word(rng, s):
    for _ in range(100):
        w = []
        for i in range(rng.choice((1, 2, 2, 3, 4, 6))):
            c = '' if rng.random() < (.2 if not i else .06) else rng.choice(list(LET[s]))
            v = rng.choice(list(PNT[s]) + [-1, 0]) if c else rng.choice(list(INIT[s]))
            d = int(bool(c) and s[:4] == 'Arab' and rng.random() < .12)
            w.append([c, v, d * rng.choice((1, 2)) if len(c) > 1 else d])
        if ok(s, w):
            return w


# letters that nativization reads without their dot
PLAIN = {'Thaana': dict(zip('ޙޞޟޠޡޥޛ', 'ह स स त त व द'.split())), 'Arab': dict(zip('حذصضطظو', 'ह ज़ स ज़ त ज़ व'.split())), 'Hebr': dict(zip('וחטצ', 'व ह त स'.split()))}
PLAIN['Arab-Ur'] = PLAIN['Arab-Pa'] = dict(zip('حصضطظ', 'ह स ज़ त ज़'.split()))


def native(s, w):
    old = LET[s]
    try:
        LET[s] = {**old, **PLAIN.get(s, {})}
        return deva(s, w, True)
    finally:
        LET[s] = old


def back_ok(s, w):
    """Words whose Devanagari reading is written back the same way."""
    for i, (c, v, d) in enumerate(w):
        if d == 2:
            return False
        if i and not c or not c and v == 11 and s in URD or c in ('כ', 'שׁ', 'שׂ') or c and NK in LET[s][c] and LET[s][c][0] not in 'कखगजफ':
            return False
        if s == 'Hebr' and i and c and c[0] in FINAL and w[i - 1][0][:1] == c[0]:
            return False
        q = w[i - 1][0] if i else ''
        if i and c and (c == q or s in URD and c[0] == q[:1]) and (w[i - 1][1] < 0 or d):
            return False
    return True
