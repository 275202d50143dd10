"""Definitions of the post-options that re-spell the output: each as a simultaneous substitution, or a function, on the text it would be without the option."""
import re
import unicodedata


def sub(pairs):
    """Simultaneous longest-first substitution."""
    d = dict(pairs)
    rx = re.compile('|'.join(re.escape(k) for k in sorted(d, key=len, reverse=True)))
    return lambda s: rx.sub(lambda m: d[m.group()], s)


def indep(vir, pairs):
    d = dict(pairs)
    rx = re.compile('(?<!%s)(?:%s)' % (vir, '|'.join(re.escape(k) for k in sorted(d, key=len, reverse=True))))
    return lambda s: rx.sub(lambda m: d[m.group()], s)


def pairs(a, b):
    a, b = a.split(' '), b.split(' ')
    assert len(a) == len(b), (a, b)
    return list(zip(a, b))


def named(script, *ps):
    return [(lk(script, x), lk(script, y)) for x, y in ps]


def lk(script, s):
    return ''.join(unicodedata.lookup(script + ' ' + p.strip()) for p in s.split('+'))


def uni(pre, lo, hi):
    return ''.join(chr(c) for c in range(lo, hi))


def rx(p, r):
    q = re.compile(p)
    return lambda s: q.sub(r, s)


def chain(*fs):
    def f(s):
        for g in fs:
            s = g(s)
        return s
    return f


BAL, JAV, KAWI = 'BALINESE', 'JAVANESE', 'KAWI'
IAST_NASAL = chain(rx('[ṃṁ](?=[kg])', 'ṅ'), rx('[ṃṁ](?=[cj])', 'ñ'), rx('[ṃṁ](?=[ṭḍ])', 'ṇ'), rx('[ṃṁ](?=[td])', 'n'), rx('[ṃṁ](?=[pb])', 'm'))
DEVA_A = pairs('इ ई उ ऊ ऋ ॠ ऌ ॡ ए ऐ ऎ', 'अि अी अु अू अृ अॄ अॢ अॣ अे अै अॆ')

# a letter after repha: itself or its unaspirated partner, with virama, before it
DOUBLED = {a: a + '്' for a in 'കഗചജടഡതദപബങഞണനമയവശസള'}
DOUBLED.update((a, b + '്') for a, b in zip('ഖഘഛഝഠഢഥധഫ', 'കഗചജടഡതദപ'))

# options that write marks after Tamil letters, combined in no order of their own
ALONE = ['MedievalTamilOrthography', 'TamilDisableSHA', 'TamilAddFirstVarga', 'TamilSubScript', 'TamilRemoveNumbers']

# option -> (targets, definition)
TABLE = {
    'BalineseArchaicJNA': (['Balinese'], sub([('ᬚ᭄ᬜ', 'ᭌ')])),
    'BalineseAvowels': (['Balinese'], sub(pairs('ᬇ ᬈ ᬉ ᬊ ᬋ ᬌ ᬍ ᬎ ᬏ ᬐ ᬑ ᬒ', 'ᬅᬶ ᬅᬷ ᬅᬸ ᬅᬹ ᬅᬺ ᬅᬻ ᬅ᭄ᬮᭂ ᬅ᭄ᬮᭃ ᬅᬾ ᬅᬿ ᬅᭀ ᬅᭁ'))),
    'JavaneseAvowels': (['Javanese'], indep('꧀', pairs('ꦆ ꦇ ꦈ ꦈꦴ ꦉ ꦉꦴ ꦊ ꦋ ꦌ ꦍ ꦎ ꦎꦴ', 'ꦄꦶ ꦄꦷ ꦄꦸ ꦄꦹ ꦄꦽ ꦄ꧀ꦉꦴ ꦄ꧀ꦭꦼ ꦄ꧀ꦭꦼꦴ ꦄꦺ ꦄꦻ ꦄꦺꦴ ꦄꦻꦴ'))),
    'JavaneseArchaicJNA': (['Javanese'], sub([('ꦗ꧀ꦚ', 'ꦘ')])),
    'KawiArchaicJNA': (['Kawi'], sub([('𑼙𑽂𑼛', '\U00011F33')])),
    'KawiAltAiAU': (['Kawi'], sub([('\U00011F3F', '\U00011F3E\U00011F3E')])),
    'KawiDecomposedVowel': (['Kawi'], sub(named(KAWI, ('LETTER AA', 'LETTER A+VOWEL SIGN AA'), ('LETTER II', 'LETTER I+VOWEL SIGN AA'), ('LETTER UU', 'LETTER U+VOWEL SIGN AA')))),
    'BengaliOldRA': (['Bengali'], sub([('র', 'ৰ')])),
    'DevanagariACandra': (['Devanagari'], sub([('ऍ', 'ॲ')])),
    'DevanagariAVowels': (['Devanagari'], sub(DEVA_A)),
    'DevanagariPrishtamatra': (['Devanagari'], sub(pairs('े ै ो ौ', 'ॎ ॎे ॎा ॎो'))),
    'NandinagariPrishtamatra': (['Nandinagari'], sub(pairs('𑧚 𑧛 𑧜 𑧝', '𑧤 𑧤𑧚 𑧤𑧑 𑧤𑧜'))),
    'jainomDevangari': (['Devanagari'], sub([('ॐ', 'ꣽ')])),
    'DograShaKha': (['Dogra'], sub([('𑠨', '𑠋')])),
    'TakriArchaicKha': (['Takri'], sub([('𑚸', '𑚋')])),
    'TakriRemoveGemination': (['Takri'], rx('([\U00011680-\U000116AA\U000116B8])\U000116B6\\1', r'\1')),
    'GranthaOldau': (['Grantha'], sub(named('GRANTHA', ('AU LENGTH MARK', 'VOWEL SIGN AU')))),
    'GurmukhiCandrabindu': (['Gurmukhi'], sub([('ਁ', 'ਂ')])),
    'GurmukhiYakaash': (['Gurmukhi'], sub([('੍ਯ', 'ੵ')])),
    'KannadaNakaraPollu': (['Kannada'], rx('(?<!\u0CCD)ನ್(?![\u0C95-\u0CB9\u0CDE])', '\u0CDD')),
    'KannadaNotRepha': (['Kannada'], rx('ರ್(?=[\u0C95-\u0CB9\u0CDE])', 'ರ\u200D್')),
    'KannadaSpacingCandrabindu': (['Kannada'], sub(named('KANNADA', ('SIGN CANDRABINDU', 'SIGN SPACING CANDRABINDU')))),
    'TeluguNakaraPollu': (['Telugu'], rx('(?<!\u0C4D)న్(?![\u0C15-\u0C39\u0C58-\u0C5A])', '\u0C5D')),
    'TeluguArasunnaChandrabindu': (['Telugu'], sub(named('TELUGU', ('SIGN COMBINING CANDRABINDU ABOVE', 'SIGN CANDRABINDU')))),
    'TeluguRemoveNukta': (['Telugu'], sub([('\u0C3C', '')])),
    'TeluguReph': (['Telugu'], rx('(?<!\u0C4D)ర్(?=[\u0C15-\u0C39\u0C58-\u0C5A])', 'ర్\u200D')),
    'KhamiShanMyanmarNumerals': (['KhamtiShan'], sub([(chr(0x1090 + i), chr(0x1040 + i)) for i in range(10)])),
    'KhamtiShanRa': (['KhamtiShan'], sub([('ရ', 'ꩳ')])),
    'KhojkiQa': (['Khojki'], sub([('𑈈𑈶', '\U0001123F')])),
    'KhojkiRRI': (['Khojki'], sub([('\U00011241', '\U00011235\U00011226\U0001122D'), ('\U00011240', '\U00011202')])),
    'KhojkiRetainSpace': (['Khojki'], sub([('\U0001123A', ' ')])),
    'KaithiRetainSpace': (['Kaithi'], sub([('⸱', ' ')])),
    'BhaiksukiRetainSpace': (['Bhaiksuki'], sub([('𑱃', ' ')])),
    'LimburemoveHistorical': (['Limbu'], sub(named('LIMBU', ('LETTER JHA', 'LETTER JA'), ('LETTER YAN', 'LETTER NA'), ('LETTER SSA', 'LETTER SHA'), ('SMALL LETTER ANUSVARA', 'SMALL LETTER NGA')))),
    'MalayalamCircVirama': (['Malayalam'], sub(named('MALAYALAM', ('SIGN VIRAMA', 'SIGN CIRCULAR VIRAMA')))),
    'MalayalamLineVirama': (['Malayalam'], sub(named('MALAYALAM', ('SIGN VIRAMA', 'SIGN VERTICAL BAR VIRAMA')))),
    'archaicAIAU': (['Malayalam'], sub(named('MALAYALAM', ('AU LENGTH MARK', 'VOWEL SIGN AU'), ('LETTER II', 'LETTER ARCHAIC II')))),
    'dotReph': (['Malayalam'], rx('(?<!്)(?:ർ|ര്)(?=[\u0D15-\u0D3A])', 'ൎ')),
    'historicChillu': (['Malayalam'], lambda s: re.sub('(?<!്)([മയഴക])്(?![\u0D05-\u0D3A\u0D3D-\u0D4C\u0D5F-\u0D61·ംഃ])', lambda m: dict(pairs('മ യ ഴ ക', '\u0D54 \u0D55 \u0D56 \u0D7F'))[m.group(1)], s)),
    'MedievalTamilOrthography': (['Tamil'], sub(pairs('எ ெ ஒ ொ ஏ ே ஓ ோ', 'எ் ெ் ஒ் ெ்ா எ ெ ஒ ொ'))),
    'TamilSubScript': (['Tamil'], sub(pairs('¹ ² ³ ⁴', '₁ ₂ ₃ ₄'))),
    'TamilRemoveNumbers': (['Tamil'], rx('[¹²³⁴₁₂₃₄]', '')),
    'TamilRemoveApostrophe': (['Tamil'], rx('[ʼˮ]', '')),
    'TamilOmDisable': (['Tamil'], sub([('ௐ', 'ஓம்')])),
    'TamilStyleUUCore': (['TamilExtended'], rx('([ഖഗഘഛഝഠഡഢഥദധഫബഭ])([ുൂ])', '\\1\u200D\\2')),
    'MeeteiMayekremoveHistorical': (['MeeteiMayek'], sub(pairs('ꫢ ꫣ ꫤ ꫥ ꫦ ꫧ ꫨ ꫩ ꫪ ꫵ ꯑꫫ ꯑꫬ ꫫ ꫬ', 'ꯆ ꯅ ꯇ ꯊ ꯗ ꯙ ꯅ ꯁ ꯁ ꯍ꯭ ꯏ ꯎ ꯤ ꯨ'))),
    'ModiRemoveLong': (['Modi'], sub(named('MODI', ('LETTER I', 'LETTER II'), ('LETTER UU', 'LETTER U'), ('VOWEL SIGN I', 'VOWEL SIGN II'), ('VOWEL SIGN UU', 'VOWEL SIGN U'),
                                           ('LETTER VOCALIC R', 'LETTER RA+VOWEL SIGN II'), ('LETTER VOCALIC RR', 'LETTER RA+VOWEL SIGN II'), ('LETTER VOCALIC L', 'LETTER LA+VOWEL SIGN II'),
                                           ('LETTER VOCALIC LL', 'LETTER LA+VOWEL SIGN II'), ('VOWEL SIGN VOCALIC R', 'SIGN VIRAMA+LETTER RA+VOWEL SIGN II'),
                                           ('VOWEL SIGN VOCALIC RR', 'SIGN VIRAMA+LETTER RA+VOWEL SIGN II'), ('VOWEL SIGN VOCALIC L', 'SIGN VIRAMA+LETTER LA+VOWEL SIGN II'),
                                           ('VOWEL SIGN VOCALIC LL', 'SIGN VIRAMA+LETTER LA+VOWEL SIGN II')))),
    'NewaDisableRepha': (['Newa'], sub([('𑐬𑑂', '𑐬𑑂\u200D')])),
    'NewaSpecialTa': (['Newa'], sub([('𑐟𑑂', '𑐟𑑂\u200D')])),
    'NewaMurmurConsonants': (['Newa'], sub(pairs('𑐴𑑂𑐒 𑐴𑑂𑐘 𑐴𑑂𑐣 𑐴𑑂𑐩 𑐴𑑂𑐬 𑐴𑑂𑐮', '𑐓 𑐙 𑐤 𑐪 𑐭 𑐯'))),
    'OriyaVaAlt': (['Oriya'], sub(named('ORIYA', ('LETTER WA', 'LETTER VA')))),
    'OriyaVa': (['Oriya'], rx('(?<!୍)ୱ', 'ବ')),
    'SaurashtraHaru': (['Saurashtra'], rx('([ꢥꢪꢬꢭ])\uA8C4ꢲ', '\\1\uA8B4')),
    'SinhalaChandrbinduAnusvara': (['Sinhala'], sub([('\u0D81', '\u0D82')])),
    'SoyomboSanskritPalatals': (['Soyombo'], sub(pairs('𑩵 𑩶 𑩷', '𑩡 𑩢 𑩣'))),
    'SoyomboSpaceTscheg': (['Soyombo'], sub([(' ', '\U00011A9A')])),
    'SoyomboInitials': (['Soyombo'], sub(pairs('\U00011A7C\U00011A99 \U00011A7D\U00011A99 \U00011A81\U00011A99', '\U00011A86 \U00011A87 \U00011A89'))),
    'ZanabazarSanskritPalatals': (['ZanabazarSquare'], sub(pairs('𑨣 𑨤 𑨥', '𑨐 𑨑 𑨒'))),
    'ZanzabarSpaceTsheg': (['ZanabazarSquare'], sub([(' ', '\U00011A41')])),
    'ZanabazarSquareMongolianFinal': (['ZanabazarSquare'], sub(named('ZANABAZAR SQUARE', ('SIGN VIRAMA', 'FINAL CONSONANT MARK')))),
    'ZanabazarSquareAiAu': (['ZanabazarSquare'], sub([('\U00011A04\U00011A0A', '\U00011A07'), ('\U00011A06\U00011A0A', '\U00011A08')])),
    'MarchenSanskritPalatals': (['Marchen'], sub(pairs('𑲂 𑲃 𑲄', '𑱶 𑱷 𑱸'))),
    'TibetanSanskritPalatals': (['Tibetan'], sub(pairs('ཙ ཚ ཛ \u0F5C', 'ཅ ཆ ཇ ཇྷ'))),
    'TibetanNada': (['Tibetan'], sub([('\u0F83', '\u0F82')])),
    'TibetanTsheg': (['Tibetan'], sub([('\u0F0B', ' ')])),
    'TibetanRemoveVirama': (['Tibetan'], sub([('\u0F84', '')])),
    'SundaneseRemoveHistoric': (['Sundanese'], sub(pairs('᮪ᮻ ᮪ᮼ ᮻ ᮼ \u1BBD', 'ᮢᮩ ᮣᮩ ᮛᮩ ᮜᮩ ᮘ'))),
    'TaiThamO': (['TaiTham', 'LueTham', 'KhuenTham'], sub([('\u1A6E\u1A63', '\u1A70')])),
    'UseAlternateo1': (['TaiTham', 'LueTham', 'KhuenTham'], sub([('ᩮᩣ', 'ᩰ')])),
    'ThamTallADisable': (['TaiTham', 'LueTham', 'KhuenTham'], sub([('\u1A64', '\u1A63')])),
    'ThaiVisargaSaraA': (['Thai'], sub([('ห์', 'ะ')])),
    'ThaanaRemoveHistorical': (['Thaana'], sub([('ޱ', 'ނ')])),
    'UrduRemoveShortVowels': (['Urdu', 'Shahmukhi'], rx('[\u0652\u064E\u0650\u064F\u0658]', '')),
    'UrduAlternateUU': (['Urdu', 'Shahmukhi'], sub([('\u064F\u0648', '\u0648\u0657')])),
    'removePaliAhom': (['Ahom'], sub(pairs('𑝁 𑝂 𑝃 𑝄 𑝅 𑝆', '𑜄 𑜌 𑜓 𑜔 𑜃 𑜎'))),
    'UseAlternateYA': (['DivesAkuru'], sub([('\U00011925', '\U00011926')])),
    'UseAlternateI1': (['Siddham'], sub([('𑖂', '𑗘')])),
    'UseAlternateI2': (['Siddham'], sub([('𑖂', '𑗙')])),
    'UseAlternateII': (['Siddham'], sub([('𑖃', '𑗚')])),
    'UseAlternateU': (['Siddham'], sub([('𑖄', '𑗛')])),
    'UseAlternateVSU': (['Siddham'], sub([('𑖲', '𑗜')])),
    'UseAlternateVSUU': (['Siddham'], sub([('𑖳', '𑗝')])),
    'noLongEO': (['ISO'], sub(pairs('ē ō', 'e o'))),
    'AnusvaratoNasalASTISO': (['IAST', 'ISO', 'ISOPali'], IAST_NASAL),
    'NasalTilde': (['IAST', 'ISO', 'ISOPali'], chain(IAST_NASAL, rx('m̐|ṃ|ṁ', '\u0303'))),
    'removeDiacritics': (['IAST', 'ISO'], rx('[\u0331\u0306\u0323\u035F\u0324\u0307\u0301\u0303\u0310\u0302\u0304]', '')),
    'CyrillicPali': (['RussianCyrillic'], sub([('л̤', 'л̣')])),
    'IASTPali': (['IAST'], sub([('l̤', 'ḷ')])),
    'inherentAO': (['IAST', 'ISO'], sub([('a', 'ô')])),
    'RomanLoCSasha': (['IAST', 'ISO'], sub([('ṣ', 'sh')])),
    'RomanLoCVaWa': (['IAST', 'ISO'], sub([('v', 'w')])),
    'LoCMarc8': (['IAST', 'ISO'], lambda s: unicodedata.normalize('NFD', s).replace('\u02DA', '\u02D9')),
    'RetainTeluguDanda': (['Telugu'], sub(pairs('.. .', '॥ ।'))),
    'RetainTamilDanda': (['Tamil'], sub(pairs('.. .', '॥ ।'))),
    'RetainKannadaDanda': (['Kannada'], sub(pairs('.. .', '॥ ।'))),
    'RetainMalayalamDanda': (['Malayalam'], sub(pairs('.. .', '॥ ।'))),
    'RetainGujaratiDanda': (['Gujarati'], sub(pairs('.. .', '॥ ।'))),
    'RetainTeluguNumerals': (['Telugu'], sub([(str(i), chr(0xC66 + i)) for i in range(10)])),
    'RetainTamilNumerals': (['Tamil'], sub([(str(i), chr(0xBE6 + i)) for i in range(10)])),
    'RetainMalayalamNumerals': (['Malayalam'], sub([(str(i), chr(0xD66 + i)) for i in range(10)])),
    'RetainGurmukhiNumerals': (['Gurmukhi'], sub([(str(i), chr(0xA66 + i)) for i in range(10)])),
    'MalayalamremoveHistorical': (['Malayalam'], chain(sub([('ഩ', 'ന')]), sub([('ന' + '\u200D്', 'ൻ')]))),
    'RephaDoubleMalayalam': (['Malayalam'], rx('([ർൎ])([ക-ഹ])(?!്)', lambda m: m.group(1) + DOUBLED.get(m.group(2), '') + m.group(2))),
    'FinalNNa': (['Tamil'], chain(sub([('ன', 'ந')]), rx(r'ந்(?=[.।॥,!\-\s]|\Z)', 'ன்'))),
    'TamilDisableSHA': (['Tamil'], rx('ஶ(?!்ரீ)([\u0bbe-\u0bcd\u0bd7]*)', r'ஷ\1²')),
    'TamilAddFirstVarga': (['Tamil'], rx('([கசடதப])([\u0bbe-\u0bcd\u0bd7]*)(?![\u0bbe-\u0bcd\u0bd7²³⁴₂₃₄])', r'\1\2¹')),
    'TamilGranthaVisarga': (['Tamil'], sub([('꞉', '𑌃')])),
    'RemoveDiacriticsTamil': (['Tamil'], rx('[ˇˆ˘·]', '')),
    'RemoveDiacritics': (['Bengali', 'Devanagari', 'Gujarati', 'Gurmukhi', 'Kannada', 'Oriya', 'Telugu'], rx('[ʼˇˆ˘·]', '')),
    'khandatabatova': (['Bengali'], rx('ৎ\u200c?ব', 'ত্ব')),
    'BengaliConjunctVB': (['Bengali'], chain(sub([('্\u200cব', '্ব')]), rx('ৎ\u200c?ব', 'ত্ব'))),
    'BengaliYYA': (['Bengali'], sub([('য', '\u09df')])),
    'OriyaYYA': (['Oriya'], sub([('ଯ', 'ୟ')])),
    'TeluguTamilRra': (['Telugu'], sub([('ఱ్ఱ', 'ౘ్ౘ'), ('ట్ర', 'ౘ్ౘ'), ('ండ్ర', 'న్ఱ')])),
    'TibetanRemoveBa': (['Tibetan'], chain(sub([('ཝ', 'བ')]), sub([('ཪྺ', 'རྦ'), ('བྺ', 'བྦ'), ('ྦྺ', 'ྦྦ')]))),
    'DivesAkuruHomoOrganNasal': (['DivesAkuru'], rx('𑤐𑤾(?=[𑤌-𑤏])|𑤕𑤾(?=[𑤑-𑤓])|𑤚𑤾(?=[𑤖𑤘𑤙])|𑤟𑤾(?=[𑤛-𑤞])|𑤤𑤾(?=[𑤠-𑤣])', '\U0001193F')),
    'TaiThamHighNga': (['TaiTham', 'LueTham', 'KhuenTham'], sub([('\u1A58', '\u1A59')])),
    'MalayalamNTA': (['ISO', 'IAST'], sub([('nṟ', 'nṯ')])),
    'MalayalamTTNTA': (['ISO', 'IAST'], sub([('nṟ', 'nṯ'), ('ṟṟ', 'ṯṯ')])),
    'readableItrans': (['Itrans'], sub(pairs('R^i R^I A I U Ch kSh M', 'RRi RRii aa ii uu chh x .m'))),
    'HebrewKatevMalei': (['Hebrew', 'Hebr'], rx('[\u05b8\u05b7]', 'א')),
    'HebrewVetVav': (['Hebrew'], chain(rx('([\u05B7\u05B8\u05B4\u05BB\u05B5\u05B6\u05B9\u05B0])ו(?!\u05BC)', r'\1ב'), sub([('ב\u05ba', 'ב\u05b9')]))),
    'removeNikkud': (['Hebr', 'Hebrew'], rx('[\u05b0-\u05b9\u05bb\u05bc\u05c1\u05c2\u05c7]', '')),
    'ChakmaVowelsIndependent': (['Chakma'], sub(pairs('𑄃𑄨 𑄃𑄪 𑄃𑄬', '𑄄 𑄅 𑄆'))),
    'SinhalaDefaultConjuncts': (['Sinhala'], chain(sub([('ජ්ඤ', 'ඥ')]), rx('(?<!ර)්(?=[යර])', '්\u200d'), sub([('ක්ෂ', 'ක්\u200dෂ'), ('ර්\u200dය', 'ර්ය'), ('ර්\u200dර', 'ර්ර')]))),
    'ArabRemoveAdditions': (['Arab'], sub(pairs('ڨ ڤ پ', 'ج ف ف'))),
    'persianPaGaFaJa': (['Arab', 'Arab-Fa'], sub(pairs('پ گ', 'ف ج'))),
    'ArabicGimelGaGha': (['Arab'], sub([('ج', 'غ')])),
    'ArabicGimelPaBa': (['Arab'], sub([('ف', 'ب')])),
    'arabPaFa': (['Arab', 'Arab-Fa'], sub([('پ', 'ف')])),
    'arabChaSa': (['Arab-Fa'], sub([('چ', 'س')])),
    'ArabAtoAleph': (['Arab'], sub([('أ', 'ا')])),
    'removeSukunEnd': (['Arab', 'Arab-Fa'], rx(r'\u0652(?=\W|\Z)', '')),
    'removeDiacriticsArabic': (['Arab', 'Arab-Fa'], rx('[\u0652\u064e-\u0650]', '')),
    'removeRukkaka': (['Syrj', 'Syrn'], rx('\u0741', '')),
    'removeQussaya': (['Syrj', 'Syrn'], rx('\u0742', '')),
    'removeMajliyana': (['Syrj', 'Syrn'], rx('\u0330', '')),
    'removeVowelsSyriac': (['Syrj', 'Syrn'], rx('[\u0732\u0735\u073C\u0738\u0739\u073F\u0651\u0730\u0736\u073a\u073d\u0733]', '')),
    'capitalizeSentence': (['IAST', 'ISO', 'ISOPali'], rx(r'(\A|[.?!]\s*|\n)(\w)', lambda m: m.group(1) + m.group(2).upper())),
}
