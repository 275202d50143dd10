"""Source "autodetect": the script of the text is recognised and the conversion is the one from that script."""
import json, os, random, unicodedata
from vf import core, names as N
from vf.core import Violation, expect, subseed, tx

ID = 'C15'
LEVEL = 'exploration'
RULE = ('a case is one text mostly in one script (random words over its letters, features of a variety injected, a minority of foreign letters, digits, '
        'punctuation): auto_detect must name it and process("autodetect", ...) must equal the explicit conversion; each distinct text and target counts once')
ASSUMPTIONS = ['letters of a script: the letters and marks of its alphabet in spec/alphabet.json that carry the Unicode name of its block']
SHRINK = ()
with open(os.path.join(core.ROOT, 'spec', 'alphabet.json'), encoding='utf8') as f:
    ALPHA = json.load(f)

SELF = ('Ahom Armi Avestan Balinese BatakKaro Bengali Bhaiksuki Brahmi Buginese Buhid Burmese Chakma Cham Chrs Devanagari DivesAkuru Dogra Egyp Elym '
        'Ethi Grantha Grek Gujarati GunjalaGondi Gurmukhi HanifiRohingya Hanunoo Hatr Hebrew Javanese Kaithi Kannada Kawi Kharoshthi Khmer Khojki '
        'Khudawadi Lao LaoPali Lepcha Limbu Mahajani Makasar Malayalam Mani Marchen MasaramGondi MeeteiMayek Modi Mongolian Mro Multani Nandinagari Narb '
        'Nbat Newa OldPersian Oriya Palm PhagsPa Phli Phlp Phnx Prti Rejang RussianCyrillic Samr Santali Sarb Saurashtra Sharada Siddham Sinhala Sogd Sogo '
        'SoraSompeng Soyombo Sundanese SylotiNagri Syre Tagalog Tagbanwa TaiTham Takri Tamil Telugu Thaana Thai Tibetan Tirhuta Ugar Wancho WarangCiti '
        'ZanabazarSquare').split()
FAMILY = {'BatakManda': 'BatakKaro', 'BatakPakpak': 'BatakKaro', 'BatakSima': 'BatakKaro', 'BatakToba': 'BatakKaro', 'GranthaPandya': 'Malayalam',
          'KhomThai': 'Thai', 'KhuenTham': 'TaiTham', 'LaoTham': 'TaiTham', 'LueTham': 'TaiTham', 'Pallava': 'Javanese', 'Ranjana': 'Devanagari',
          'SiddhamDevanagari': 'Devanagari', 'TamilBrahmi': 'Brahmi', 'Vatteluttu': 'Tamil'}
NOT_MYANMAR = set()
LATIN = 'abcdeghijklmnoprstuvy'
DIAC = 'āīūṃḥśṣṇṛṝḷḹḻṉṟṭḍṅñ'
ARABIC = 'ابتثجحخدذرزسشصضطظعغفقكلمنهوي'
SYRIAC = 'ܐܒܓܕܗܘܙܚܛܝܟܠܡܢܣܥܦܨܩܪܫܬ'
LAO = 'ກຂຄງຈຊຍດຕຖທນບປຜພຟມຢຣລວສຫອຮາເແ'
THAI = 'กขคงจฉชญฏฐฑณดตถทธนบปผพภมยรลวสหอาิเโ'
BURMESE = 'ကခဂဃငစဆဇဈဋဌဍဎဏတထဒဓနပဖဗဘမယရလဝသဟအ'
BENG = 'কখগঘঙচছজঝঞটঠডঢণতথদধনপফবভমযরলশষসহ'
# name of the variety: (letters, required features - one of, autodetected as, pre-options)
VARIETY = {
    'HK': (LATIN, [''], 'HK', []),
    'Itrans': (LATIN, ['R^i', 'R^I', 'L^i', '.N', '~N', '~n', 'Ch', 'sh', 'Sh'], 'Itrans', []),
    'IAST': (LATIN, list(DIAC), 'IAST', []),
    'ISO': (LATIN, [d + e for d in DIAC for e in ('ē', 'ō')], 'ISO', []),
    'Titus': (LATIN, ['kʰ', 'dʰā', 'tʰē'], 'Titus', []),
    'Latn': (LATIN, ['ʾ', 'ʿ', 'š', 'ʿā'], 'Latn', []),
    'BurmeseRomanLoC': (LATIN, ['ʻ', '˝'], 'BurmeseRomanLoC', []),
    'Arab': (ARABIC, [''], 'Arab', []),
    'Arab-Fa': (ARABIC, ['چ', 'گ', 'ژ', 'پ'], 'Arab-Fa', []),
    'Urdu': (ARABIC, ['ڈ', 'ٹ', 'ڑ', 'کھ', 'ٹگ', 'پڑ'], 'Urdu', ['UrduShortNotShown']),
    'Shahmukhi': (ARABIC, ['ݨ', 'مھ', 'نھ', 'ݨٹ', 'گݨ'], 'Shahmukhi', []),
    'Syre': (SYRIAC, [''], 'Syre', []),
    'Syrn': (SYRIAC, ['ܒܲ', 'ܒܵ', 'ܝܼ', 'ܘܼ', 'ܒܸ', 'ܘܿ'], 'Syrn', []),
    'Syrj': (SYRIAC, ['ܒܰ', 'ܒܺ', 'ܒܶ', 'ܒܽ'], 'Syrj', []),
    'Lao': (LAO, [''], 'Lao', []),
    'LaoT': (LAO, ['ກະ', 'ກັນ'], 'Lao', ['LaoTranscription']),
    'LaoS': (LAO, ['ກ໌'], 'Lao', ['LaoSajhayaOrthography']),
    'LaoSA': (LAO, ['ກ໌ກະ'], 'Lao', ['LaoSajhayaOrthographywithA']),
    'LaoPali': (LAO, list('ຆຉຌຎຏຐຑຒຓຘຠຨຩຬ'), 'LaoPali', []),
    'LaoPaliT': (LAO, ['ຆະ', 'ຌັນ'], 'LaoPali', ['LaoTranscription']),
    'Thai': (THAI, [''], 'Thai', []),
    'ThaiO': (THAI, ['กะ', 'กัน'], 'Thai', ['ThaiOrthography']),
    'ThaiS': (THAI, ['ก์'], 'Thai', ['ThaiSajjhayaOrthography']),
    'ThaiSA': (THAI, ['ก์กะ'], 'Thai', ['ThaiSajjhayawithA']),
    'ThaiP': (THAI, ['ก\u035c', 'ก\u0325', 'งํ', 'ก\u0e47', 'กะก\u0e47', 'ก์ก\u0325'], 'Thai', ['ThaiPhonetic']),
    'Burmese': (BURMESE, [''], 'Burmese', []),
    'Mon': (BURMESE, list('ၚၛၞၟၠ'), 'Mon', []),
    'Shan': (BURMESE, list('ၵၶၷၸၺ'), 'Shan', []),
    'Bengali': (BENG, [''], 'Bengali', []),
    'Assamese': (BENG, ['ৰ', 'ৱ'], 'Assamese', []),
}
PARAMS = {'script_code': ('Deva', 'Devanagari'), 'lang_code': ('te', 'Telugu'), 'lang_name': ('Kannada', 'Kannada')}


def head(c):
    w = unicodedata.name(c, '?').split()
    return w[1] if w[0] == 'OLD' else w[0]


def pools():
    out = {}
    for s in SELF + list(FAMILY):
        p = [c for c in ALPHA[s] if unicodedata.category(c)[0] in 'LM' and not c.isascii()]
        heads = [head(c) for c in p]
        h = max(sorted(set(heads)), key=heads.count)
        out[s] = ''.join(c for c in p if head(c) == h and not (h == 'BENGALI' and c in 'ৰৱ') and not (s == 'Tibetan' and c == '་'))
    return out


POOL = None


def word(r, p, feats=None):
    w = ''.join(r.choice(p) for _ in range(r.randrange(3, 9)))
    return w


def jobs(tier, seed):
    big = tier == 'thorough'
    out = [{'kind': 'script', 'names': (SELF + list(FAMILY))[k::8], 'n': 400 if big else 30, 'seed': subseed(seed, 's', k)} for k in range(8)]
    out += [{'kind': 'variety', 'names': list(VARIETY)[k::8], 'n': 600 if big else 60, 'seed': subseed(seed, 'v', k)} for k in range(8)]
    return out


def run_job(job, rec):
    global POOL
    POOL = POOL or pools()
    r = random.Random(job['seed'])
    al = [t for t in N.all_names() if t != 'IPA']
    for name in job['names']:
        for i in range(job['n']):
            if job['kind'] == 'script':
                p, feats, exp, pre = POOL[name], [''], FAMILY.get(name, name), []
                if exp in ('Thai', 'LaoPali', 'Lao', 'Burmese'):
                    pre = None
                if name == 'LaoPali':
                    feats = list('ຆຉຌຎ')
            else:
                p, feats, exp, pre = VARIETY[name]
            ws = [word(r, p) for _ in range(r.randrange(3, 9))]
            f = r.choice(feats)
            if f:
                k = r.randrange(len(ws))
                j = r.randrange(len(ws[k]) + 1)
                ws[k] = ws[k][:j] + f + ws[k][j:]
            n = sum(map(len, ws))
            if r.random() < .5 and job['kind'] == 'script':
                # a minority of foreign letters, of at most a third of the text
                other = r.choice([o for o in POOL if head(POOL[o][0]) != head(p[0])] + ['LATIN', 'LATIN'])
                fw = ''.join(r.choice(LATIN if other == 'LATIN' else POOL[other]) for _ in range(r.randrange(1, max(2, n // 3))))
                ws.insert(r.randrange(len(ws) + 1), fw)
            elif r.random() < .4:
                ws.insert(r.randrange(len(ws) + 1), r.choice(['12', '(3)', '"', '-', '...']))
            text = r.choice([' ', ' ', '\n']).join(ws)
            if exp == 'HK' and any(x in text for x in VARIETY['Itrans'][1]) or exp == 'HK' and any(x in text for x in DIAC):
                rec.excluded += 1
                continue
            if exp == 'Burmese' and '္ည' in text:   # a mark of Mon
                rec.excluded += 1
                continue
            c = {'text': text, 'exp': exp, 'pre': pre, 'tgt': r.choice(al), 'nat': r.random() < .5}
            if r.random() < .1:
                c['param'] = r.choice(list(PARAMS))
            rec.check(c)
    rec.count('scripts and varieties', len(job['names']))


def judge(c):
    a = core.api()
    got = a.call(a.tr.auto_detect, c['text'])
    expect(got, c['exp'], 'auto_detect(%r)' % c['text'][:80])
    if c['pre'] is None:
        return
    if 'param' in c:
        t, name = PARAMS[c['param']]
        out = a.process('autodetect', t, c['text'], c['nat'], param=c['param'])
        expect(out, tx(c['exp'], name, c['text'], c['nat'], c['pre']), 'process("autodetect", %r, %r, nativize=%r, param=%r) against source %s with pre-options %r' % (
            t, c['text'][:60], c['nat'], c['param'], c['exp'], c['pre']))
        return
    expect(tx('autodetect', c['tgt'], c['text'], c['nat']), tx(c['exp'], c['tgt'], c['text'], c['nat'], c['pre']),
           'process("autodetect", %r, %r, nativize=%r) against source %s with pre-options %r' % (c['tgt'], c['text'][:60], c['nat'], c['exp'], c['pre']))
