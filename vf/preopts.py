"""Definitions of pre-options: each rewrites the source text, by the letters named here, before it is converted."""
import re


def sub(*pairs):
    def f(x):
        for a, b in pairs:
            x = x.replace(a, b)
        return x
    return f


def rx(*args):
    def f(x):
        for a, b in zip(args[::2], args[1::2]):
            x = re.sub(a, b, x)
        return x
    return f


def seq(*fs):
    def f(x):
        for g in fs:
            x = g(x)
        return x
    return f


def swap(a, b):
    def f(x):
        return x.replace(a, '\ue0f0').replace(b, a).replace('\ue0f0', b)
    return f


SYL_LIMBU = dict(zip('ᤁᤅᤋᤏᤐᤔᤖᤗ', 'ᤰᤱᤳᤴᤵᤶᤷᤸ'))

# option: (source scripts, definition, letters and pieces to mix into the words)
TABLE = {
    'AnuChandraEqDeva': (['Devanagari'], sub(('ँ', 'ं')), ['ँ', 'काँ']),
    'SaurastraHaaruColonTamil': (['Tamil'], seq(sub(('ன', 'ந')), rx('([\u0bbe-\u0bc8\u0bd7\u0bca-\u0bcd]):', r':\1', '([நமரல]):', '\\1\ua8b4')), ['ல:', 'ந:', 'நா:', 'மி:', 'ர:', 'ரோ:', 'மா', 'ன:', 'ல்:', 'ன']),
    'BengaliTargetVa': (['Bengali'], sub(('ব', 'ভ়')), ['ব', 'বা', 'ব্ব']),
    'OriyaTargetVa': (['Oriya'], sub(('ବ', 'ୱ')), ['ବ', 'ବା', 'ବ୍ବ']),
    'BengaliSubojinedVa': (['Bengali'], rx('(?<![মব])্ব', '্ভ়'), ['ত্ব', 'ম্ব', 'ব্ব', 'স্বা']),
    'OriyaSubojinedVa': (['Oriya'], rx('(?<![ମବ])୍ବ', '୍ୱ'), ['ତ୍ବ', 'ମ୍ବ', 'ବ୍ବ', 'ସ୍ବା']),
    'ShowKhandaTa': (['Bengali'], sub(('ৎ', 'ত্ˍ')), ['ৎ', 'কৎ']),
    'IASTPali': (['IAST'], sub(('ḷ', 'l̤')), ['ḷ', 'ḷha']),
    'IASTLDotRetroflex': (['IAST'], sub(('ḷ', 'l̤')), ['ḷ', 'ḷha']),
    'CyrillicPali': (['RussianCyrillic'], sub(('л̣', 'л̤')), ['л̣', 'л̣ха']),
    'swapEe': (['HK', 'Velthuis'], seq(swap('e', 'E'), swap('o', 'O')), ['e', 'E', 'o', 'O', 'kE', 'kO', 'ke']),
    'longEOISO': (['ISO'], sub(('e', 'ē'), ('o', 'ō')), ['ke', 'ko', 'e', 'o']),
    'TakriArchaicKha': (['Takri'], sub(('𑚋', '𑚸')), ['𑚋', '𑚸']),
    'KhuenRaHaamKaren': (['TaiTham'], sub(('᩺', 'ᩁ\u1a60'), ('᩼', '᩺')), ['ᨠ᩺', 'ᨠ᩼', '᩼']),
    'TamilNumeralSub': (['Tamil'], rx('([கசடதபஜஸ][\u0bbe-\u0bcd]*)([234])', lambda m: m[1] + '²³⁴'[int(m[2]) - 2]), ['க2', 'கா3', 'த4', 'ப்2', 'ஜ2', 'ய2', 'ம3', 'கு4']),
    'ArabicGimelJa': (['Arab'], sub(('ج', 'ڨ')), ['ج']),
    'novowelshebrewSemitic': (['Hebr'], rx('([כפבךף])', '\\1ּ'), ['כ', 'פ', 'ב', 'ך', 'ף']),
    'holamlong': (['Hebr', 'Hebrew'], rx('(?<!ו)ֹ', 'וֹ'), ['קֹ', 'קוֹ', 'לֹ']),
    'IPAIndic': (['IPA'], sub(('ʊ', 'u'), ('ɛ', 'e')), ['ʊ', 'kʊ', 'ɛ', 'kɛ']),
    'DivesAkuruAlternateIndVowels': (['DivesAkuru'], sub(*zip('𑤥𑤰 𑤥𑤱 𑤥𑤲 𑤥𑤳 𑤥𑤴 𑤥𑤵 𑤥𑤷 𑤥𑤸 𑤥'.split(), '𑤁 𑤂 𑤃 𑤄 𑤅 𑤆 𑤆𑤵 𑤉 𑤀'.split())), ['𑤥𑤰', '𑤥𑤱', '𑤥𑤸', '𑤥', '𑤥𑤲']),
    'LimbuSpellingSaI': (['Limbu'], rx('([ᤁᤅᤋᤏᤐᤔᤖᤗ])᤻', lambda m: '᤺' + SYL_LIMBU[m[1]]), ['ᤁ᤻', 'ᤔ᤻', 'ᤗ᤻', 'ᤛ᤻']),
}
