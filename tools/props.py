NOT_APPLICABLE = []
TESTS = ('The shipped tests compare single fixed strings per script (one short sample each) for each script and option; ')
CV = 'aksharamukha/Convert.py'
CF = 'aksharamukha/ConvertFix.py'
GM = 'aksharamukha/GeneralMap.py'
MAPS = 'aksharamukha/ScriptMap/'
TR = 'aksharamukha/transliterate.py'
PRE = 'aksharamukha/PreProcess.py'
POST = 'aksharamukha/PostProcess.py'
INDIC = 'Devanagari, Bengali, Assamese, Gurmukhi, Gujarati, Oriya, Tamil, Telugu, Kannada, Malayalam and Sinhala'
ROM = 'IAST, ISO, HK, Itrans, Velthuis, WX, Titus, RussianCyrillic, IASTPali and ISOPali'
OUT = 'Words a scheme has no distinct spelling for are outside the domain (listed in DESIGN.md).'

PROPS = [
 dict(id='C01', title='Lossless conversion among the main Indic scripts',
      statement='For any two of ' + INDIC + ', converting text correctly spelled in the first script to the second and back with '
      'nativization off returns exactly the original text: every consonant (including ḷ ḻ ṟ ṉ and the eight dotted letters), vowel, '
      'vowel sign, conjunct, modifier, avagraha, digit, danda and Om survives.',
      over=['inputs', 'configurations'], quant='all words over the shared letter inventory, in all 110 ordered script pairs. ' + OUT,
      why=TESTS + 'they never convert back, and sample no clusters beyond a handful.',
      files=[CV, CF, GM, MAPS + 'MainIndic'],
      mech=[('script-to-script replacement, longest match first', 'Convert.convertScript'), ('per-script orthographic fixes and their inverses', 'ConvertFix.Fix<Script>(reverse=…)'),
            ('letters missing in a script written with diacritics', 'ConvertFix.ShiftDiacritics')],
      observe=['transliterate.process(A,B,text,nativize=False)'], tech='round-trip property test: swept + Hypothesis-generated words, shrunk',
      note='Exhaustive over all letters x vowels x marks (both positions); clusters, hiatus and random words sampled in quick, swept in thorough.'),
 dict(id='C02', title='Lossless romanization',
      statement='Converting text from any of ' + INDIC + ' to any of the romanizations ' + ROM + ' and back, from a romanization to an '
      'Indic script and back, or from one romanization to another and back, with nativization off returns exactly the original text; '
      'sequences that would read as another letter (k+h, a+i, a+u) are kept apart.',
      over=['inputs', 'configurations'], quant='all words over the shared letter inventory, in all 310 ordered pairs that involve a romanization. ' + OUT,
      why=TESTS + 'they never convert back.',
      files=[CV, CF, GM, MAPS + 'Roman'],
      mech=[('separator between letters that would read as a digraph', 'Convert.convertScript (Indic to Latin)'),
            ('inherent-vowel handling of Latin input', 'Convert.convertScript (Latin to Indic)'), ('per-scheme fixes', 'ConvertFix.PostFixRomanOutput, Fix<Scheme>')],
      observe=['transliterate.process'], tech='round-trip property test: swept + Hypothesis-generated words, shrunk',
      note='As C01, over 310 ordered pairs.'),
 dict(id='C03', title='Every letter combination is spelled as the script charts prescribe',
      statement='Between Devanagari and each of the other main Indic scripts and the romanizations ' + ROM + ', in both directions with '
      'nativization off, each word is spelled letter by letter as the conversion charts say, with the script\'s own composition rules '
      '(chillu letters, khanda ta, ba-phala, addak, Sinhala joiners, Tamil superscripts, shifted vowel signs, roman separators) and '
      'nothing added, lost or reordered.',
      over=['inputs', 'configurations'], quant='all words over 45 consonants, 18 vowels, 3 marks, avagraha, digits, dandas and Om. ' + OUT,
      why=TESTS + 'a rule that misfires on some cluster or neighbourhood is not visible in one sample.',
      files=[CV, CF, GM, MAPS + 'MainIndic', MAPS + 'Roman'],
      mech=[('letter charts', 'ScriptMap/*'), ('composition rules', 'ConvertFix.Fix<Script>'), ('vowel-sign formation', 'Convert.convertScript')],
      observe=['transliterate.process'], tech='reference-model differential test over swept + Hypothesis-generated words',
      note='The oracle is an independent model (vf/model.py) over letter charts frozen in spec/ and audited against Unicode names; trusts those charts.'),
 dict(id='C04', title='Path independence of conversions',
      statement='For any three of the main Indic scripts and the romanizations ' + ROM + ', converting A to B and then B to C gives '
      'exactly what converting A to C directly gives (nativization off).',
      over=['inputs', 'configurations'], quant='all words over the shared letter inventory and all 7980 ordered triples. ' + OUT,
      why=TESTS + 'no test composes two conversions; the four code paths (Indic/Latin to Indic/Latin) are tested apart.',
      files=[CV, CF, GM], mech=[('four separate conversion branches that must agree', 'Convert.convertScript')],
      observe=['transliterate.process'], tech='metamorphic property test over generated words and script triples',
      note='All 7980 triples visited in each run, several texts per triple.'),
]

LINEAR = ('ShanLoC, BengaliRaBa, RomanSemitic, Nandinagari, Pallava, Dogra, Ranjana, GranthaGrantamil, Multani, Mahajani, Hanunoo, Siddham, '
          'SiddhamDevanagari, GranthaPandya, Vatteluttu, Khudawadi, Bhaiksuki, Sharada, Newa, Takri, SylotiNagri, Tirhuta, Modi, Kaithi, '
          'Kharoshthi, TamilBrahmi, Grantha, Tagalog, BatakKaro, BatakPakpak, BatakToba, BatakManda and Brahmi')
STACKED = ('Marchen, GunjalaGondi, KhamtiShan, TaiLaing, Shan, Tibetan, TibetanLoC, Khmer, Burmese, Mon, TaiTham, LaoTham, LueTham, KhuenTham, '
           'Balinese, Javanese, Sundanese, Rejang, Thai, LaoPali, DivesAkuru, Kawi, Saurashtra, TamilExtended, Limbu, MasaramGondi, '
           'ZanabazarSquare, Soyombo, Buginese and Khojki')
PROPS += [
 dict(id='C05', title='Other linear Brahmic scripts follow their charts and read back',
      statement='From Devanagari to each of ' + LINEAR + ' (nativization off) every word is spelled letter by letter as the script\'s chart '
      'says, virama between the letters of a cluster, vowel sign and mark after it, in the order of the text. Where the script has a '
      'letter for everything (' + "BengaliRaBa, Ranjana, GranthaGrantamil, SiddhamDevanagari, Sharada, Newa, Tirhuta, Grantha, Brahmi" + ') converting back '
      'restores the text; elsewhere letters that share a sign read back as one and the same letter, all others as themselves, and converting forward again '
      'reproduces the same spelling.',
      over=['inputs', 'configurations'], quant='all words over 45 consonants, 18 vowels, 3 marks and avagraha, digits and dandas as charted; Kharoshthi '
      'without digits; Sharada and Grantha over the 33 basic consonants; exact reading back over the 33 basic consonants and 14 vowels.',
      why=TESTS + 'one word per script.', files=[CV, CF, GM, MAPS + 'MainIndic', MAPS + 'EastIndic'],
      mech=[('letter charts', 'ScriptMap/*'), ('script-to-script replacement', 'Convert.convertScript'), ('per-script fixes', 'ConvertFix.Fix<Script>')],
      observe=['transliterate.process'], tech='reference-model differential and round-trip test over swept + Hypothesis-generated words',
      note='Trusts letter charts frozen in spec/letters_raw.json and the reading of each sign in spec/readback.json.'),
 dict(id='C06', title='Stacking scripts: subscripts, vowel placement, finals, reading back',
      statement='From Devanagari to each of ' + STACKED + ' (nativization off) every syllable is written with the script\'s own subscript or '
      'conjunct forms, its vowel signs on the proper side of the cluster (Thai and Lao vowels that precede the consonant, tall AA of Burmese, Mon, '
      'Tai Tham and Kawi), repha and final letters only where the script uses them; converting back to Devanagari restores the words (letters that share a sign read '
      'as one and the same letter); and, except in scripts with homographs, converting forward again reproduces the same spelling.',
      over=['inputs', 'configurations'], quant='all words of syllables with at most two onset consonants over the 33 basic consonants, 14 vowels, 3 marks, '
      'digits and dandas; scripts without a settled spelling of vocalic r and l are checked without those vowels; no clusters in Buginese; forward again is '
      'not required of Tibetan, TibetanLoC, DivesAkuru, KhamtiShan, TaiLaing, Shan, Rejang, Limbu and Khojki.',
      why=TESTS + 'the order-sensitive regular-expression rules of these scripts interact and are tested on one word each.',
      files=[CV, CF, GM, MAPS + 'EastIndic'],
      mech=[('subscript and medial forms', 'ConvertFix.Fix<Script>'), ('prepose vowels', 'ConvertFix.ReverseVowelSigns, ThaiDigraphConjuncts'), ('letter charts', 'ScriptMap/EastIndic/*')],
      observe=['transliterate.process'], tech='reference-model differential and stability test over swept + Hypothesis-generated words',
      note='Trusts the charts of letters, two-letter clusters and signs in spec/stack.json and their reading in spec/readback.json.'),
]

ANY = 'a string comes back'
PROPS += [
 dict(id='C07', title='Every call returns text: no script pair, option or input raises',
      statement='process() returns a string, raises nothing and prints nothing, in bounded time, for every ordered pair of supported scripts and romanizations, nativization on or '
      'off, any single pre- or post-option the library knows, source "autodetect" with default, script_code, lang_code or lang_name targets, and any text: correct, '
      'scrambled, empty, control characters, emoji, unassigned, mixed scripts. An unknown source name (nativization off), an unknown target name, an empty target and '
      '"Ignore" return the text unchanged.',
      over=['inputs', 'configurations'], quant='all strings, all 34 000 ordered pairs and all options. Tamil to IPA (which calls a web service) is left out.',
      why=TESTS + 'they feed only well-formed words of the right script, and each option with one script.', files=[TR, CV, CF, PRE, POST, 'aksharamukha/gimeltra.py'],
      mech=[('dispatch over source/target kind', 'transliterate.convert'), ('option lookup', 'transliterate.convert_default'), ('script detection', 'transliterate.auto_detect')],
      observe=['transliterate.process'], tech='fuzzing (grammar-based and arbitrary Unicode) with a no-exception oracle over the configuration cross product',
      note='Every ordered pair is visited in each run; texts sampled.'),
 dict(id='C08', title='Pure function: same arguments, same result, whatever happened before',
      statement='The result of process() and convert() depends on their arguments only: repeating a call, making other calls (any scripts, options, texts) before it, '
      'making it in a fresh process, from several threads at once, or under another hash seed gives the same result, and the option lists passed in are left as they '
      'were.',
      over=['histories', 'schedules', 'inputs'], quant='all sequences and interleavings of calls.',
      why='The shipped tests make each call once in one fixed order and one process.', files=[TR, CV, CF, PRE, POST, GM, 'aksharamukha/gimeltra.py'],
      mech=[('shared charts', 'GeneralMap, ScriptMap/*'), ('option lists', 'transliterate.convert'), ('cached data files', 'transliterate._load_data, get_semitic_json')],
      observe=['transliterate.process', 'transliterate.convert'], tech='stateful property test: generated call histories, each compared with isolated, reordered, concurrent runs',
      note='Histories of 24 calls over 3 scripts that collide on scripts, options and texts; isolation by forked children and subprocesses.'),
 dict(id='C10', title='Line and word independence',
      statement='Converting a text of several lines gives the same result as converting each line by itself and joining them with line breaks; the same holds for '
      'words joined by single spaces, except for targets that write spaces in their own way (Tibetan, TibetanLoC, Khojki, Bhaiksuki, Kaithi, OldPersian, PhagsPa, '
      'Ugar). Position in the text (first, middle, last) never changes how a word is spelled.',
      over=['inputs', 'configurations'], quant='all texts of words correctly spelled in an Indic script or scholarly romanization, all targets except Hebr, nativization on or off.',
      why=TESTS + 'none compares a text with its pieces.', files=[CV, CF, TR, PRE, POST],
      mech=[('look-behind / look-ahead on neighbours', 'ConvertFix.*'), ('whole-text replacements', 'Convert.convertScript')],
      observe=['transliterate.process'], tech='metamorphic property test: convert(A+sep+B) = convert(A)+sep+convert(B) over generated words',
      note='All pairs of 71 sources x 183 targets in each run.'),
 dict(id='C11', title='Output is written in the target script only',
      statement='Text of words correctly spelled in an Indic script or scholarly romanization converts to text made only of characters the target script or '
      'romanization uses: no internal marker, private-use placeholder, stray joiner, letter or sign of the source script, and no empty result.',
      over=['inputs', 'configurations'], quant='all words over the letter inventory of each source, all targets, nativization on or off.',
      why=TESTS + 'an internal marker left behind in a rare combination shows up in no sample.', files=[CV, CF, PRE, POST, TR],
      mech=[('internal markers inserted and removed', 'ConvertFix.*, Convert.convertScript'), ('fallback letters', 'FallBack')],
      observe=['transliterate.process'], tech='property test of an alphabet invariant over generated words, all source x target pairs',
      note='Trusts the alphabets frozen in spec/alphabet.json, harvested from the audited tree.'),
 dict(id='C12', title='Names in any letter case; unknown options ignored',
      statement='Script names (Indic scripts and romanizations), pre-option and post-option names mean the same in any letter case, and option names the library '
      'does not know are ignored wherever they stand in the list.',
      over=['configurations', 'inputs'], quant='all names of scripts and options, all re-casings, all texts.',
      why='The shipped tests use the canonical spellings.', files=[TR],
      mech=[('name lookup', 'transliterate.process_default'), ('option lookup', 'transliterate.convert_default')],
      observe=['transliterate.process'], tech='metamorphic property test: re-cased names and bogus options against the canonical call',
      note='Every script and option name is re-cased in each run.'),
 dict(id='C25', title='Converting a script to itself',
      statement='Converting any text from a script to itself with nativization off and no options returns it unchanged (also for the targets "" and "Ignore"). With '
      'nativization or a post-option, an Indic script converted to itself gives what going through Devanagari gives.',
      over=['inputs', 'configurations'], quant='all strings for the identity (all scripts except ISO259, HebrewSBL, PersianDMG, ISO233); words of the script for the '
      'route through Devanagari (all Indic scripts except Hebrew, Urdu, Shahmukhi, Thaana and Lao).',
      why='The shipped tests never convert a script to itself.', files=[TR, CV],
      mech=[('same-script shortcut and detour', 'transliterate.convert')],
      observe=['transliterate.process'], tech='metamorphic property test and fuzzing of the identity',
      note='All scripts visited in each run.'),
]
FL = 'aksharamukha/transliterate_file.py'
PROPS += [
 dict(id='C16', title='Text and HTML files: all text converted, nothing else touched',
      statement='transliterate_file.process on a .txt, .html or .htm file leaves the file as it is and writes one new file <stem>_<source><target><extension> beside it: '
      'for text, exactly convert() of the contents; for HTML, the same page with every text node replaced by its conversion (up to surrounding white space) while '
      'tags, nesting, attributes, comments, doctype, scripts and style sheets stay. convert_html in API mode returns the same for a page given as a string. Options and '
      'nativization are passed on. Other file types and missing files create nothing and raise nothing.',
      over=['inputs', 'configurations'], quant='all UTF-8 text with \\n line ends, all well-formed pages, all script pairs and options, all paths.',
      why='The shipped tests do not touch file conversion at all.', files=[FL], mech=[('file type dispatch', 'transliterate_file.process'), ('text nodes', 'transliterate_file.convert_html')],
      observe=['transliterate_file.process', 'transliterate_file.convert_html'], tech='property-based test over generated documents against convert() and an independent HTML event parser',
      note='Documents generated from a small grammar of blocks, inlines, lists, tables, comments, scripts.'),
 dict(id='C17', title='Word files: every text run converted, nothing else touched',
      statement='transliterate_file.process on a .docx file leaves the file as it is and writes <stem>_<source>_<target>.docx (convert_docx in API mode: base64 in, bytes '
      'out) with the same members in the same order, in which every w:t run of every word/*.xml part holds the conversion of its text with the given options and '
      'nativization; all other elements, attributes and members are unchanged.',
      over=['inputs', 'configurations'], quant='all archives with well-formed XML parts, all script pairs and options.',
      why='The shipped tests do not touch file conversion at all.', files=[FL], mech=[('text runs', 'transliterate_file.xml_file_to_convert'), ('members', 'transliterate_file.parse_content')],
      observe=['transliterate_file.process', 'transliterate_file.convert_docx'], tech='property-based test over generated archives against convert() and an independent XML parser',
      note='Archives generated: 1-5 parts, runs of five kinds, binary members.'),
]
PROPS += [
 dict(id='C13', title='Script codes (ISO 15924) select the script they name',
      statement='With param="script_code", process() converts exactly as with the script names the codes stand for: ISO 15924 codes of all scripts in any letter case, '
      '<language>-<Script> combinations, and latn-/en-/eng-<scheme> for the romanizations, as source or target, and "autodetect" as source; text, nativization and options '
      'are passed on. Where a code covers several scripts the most popular one is taken. An unknown code raises.',
      over=['configurations', 'inputs'], quant='all codes of the shipped script tables (ties in popularity left out), all pairs, options and texts.',
      why='The shipped tests call the converter by script names only.', files=[TR, 'aksharamukha/yaml/aksharamukha-scripts.yaml'],
      mech=[('code tables', 'transliterate.process_script_tag')],
      observe=['transliterate.process(param="script_code")'], tech='differential property test: call by code against call by name',
      note='Every code is visited several times in each run.'),
 dict(id='C14', title='Language codes and names select the script of the language',
      statement='With param="lang_code" (ISO 639 two- or three-letter codes in any letter case, <language>-<Script> combinations, sa/san/pi/pli-<Script> for any '
      'Indic script, la-/en-/eng-<scheme> for romanizations; sa and pi alone mean Devanagari, la and en mean ISO) and with param="lang_name" (English names of the '
      'languages), process() converts exactly as with the script names meant; text, nativization and options are passed on. An unknown code raises.',
      over=['configurations', 'inputs'], quant='all codes of the shipped script tables (codes naming several equally popular scripts left out), all pairs, options and texts.',
      why='The shipped tests call the converter by script names only.', files=[TR, 'aksharamukha/yaml/aksharamukha-scripts.yaml'],
      mech=[('code tables', 'transliterate.process_lang_tag / process_lang_name')],
      observe=['transliterate.process(param="lang_code"|"lang_name")'], tech='differential property test: call by code or name of a language against call by script name',
      note='Every code and name is visited several times in each run.'),
 dict(id='C15', title='Automatic detection of the source script',
      statement='auto_detect names the script that most letters of the text belong to, though a minority of up to a third is foreign, and tells apart varieties of a script '
      'by their distinctive letters: HK, Itrans, IAST, ISO, Titus, Latn and BurmeseRomanLoC; Arab, Arab-Fa, Urdu and Shahmukhi; Syre, Syrn and Syrj; Lao and LaoPali; '
      'Burmese, Mon and Shan; Bengali and Assamese. process("autodetect", target, text) equals the conversion from that script by name, for Thai and Lao with the '
      'pre-option that fits the orthography found.',
      over=['inputs'], quant='all texts with a clear majority script among the supported ones (a font-hack script is detected as the script it is encoded in), all targets.',
      why='The shipped tests never use autodetect.', files=[TR],
      mech=[('majority count and distinctive letters', 'transliterate.auto_detect'), ('choice of pre-options', 'transliterate.detect_preoptions')],
      observe=['transliterate.auto_detect', 'transliterate.process'], tech='property-based test: texts generated with a known majority script and distinctive letters',
      note='All scripts and varieties in each run.'),
 dict(id='C33', title='Sindhi implosives and other letters beyond the common inventory',
      statement='The Sindhi implosives are letters of their own in Devanagari, Khudawadi and Khojki (Multani has two of them); everywhere else each is written as the plain '
      'letter after a low line (U+02CD) and is read back from that spelling, in any position of the word before a vowel. Among ' + INDIC + ' the glottal stop, zha and '
      'the Kashmiri vowels of Devanagari survive conversion and conversion back.',
      over=['inputs', 'configurations'], quant='all words with implosives in open syllables from ' + ROM + ', the eleven Indic scripts, Khudawadi, Khojki, Ranjana, Sharada, '
      'Newa, Tirhuta, Brahmi, Siddham, Kaithi, Modi and Dogra into all linear and stacking Brahmic scripts; Kashmiri u, uu after r and l are left out, as are clusters ending in v, b or retroflex s there.',
      why=TESTS + 'these letters do not occur in them.', files=[CF, CV, POST],
      mech=[('implosives', 'ConvertFix.FixDevanagari, FixKhudawadi, FixKhojki, FixMultani'), ('chillu markers', 'PostProcess.MalayalamChillu')],
      observe=['transliterate.process'], tech='reference-model differential and round-trip test over generated words',
      note='Letters of the words as in the charts of C01-C06.'),
 dict(id='C26', title='Nativization (the default) spells words by the native orthography',
      statement='With nativization on, which is the default of process(), the text is spelled as without it except for the native rules of the target: Telugu, Kannada (and '
      'Nandinagari) write a nasal before a stop of its class as anusvara and Telugu, Kannada and Malayalam a final m too; Bengali, Assamese, Oriya, Tamil (and Malayalam before '
      'plosives except the k and p groups\' aspirates and voiced stops) write the nasal letter for anusvara; Bengali and Oriya v become b, y after a letter gets its dotted form in '
      'Bengali, Assamese and Oriya; Gurmukhi writes tippi or bindi by the vowel; Tamil writes the alveolar n inside words; archaic letters of Modi, Limbu, Meetei Mayek, '
      'Sundanese, Khojki, Malayalam, Sinhala and Tibetan are replaced by the modern ones; and diacritics foreign to the script are dropped.',
      over=['inputs', 'configurations'], quant='all words of the shared inventory from Devanagari and 26 other scripts into all linear, stacking and main scripts and romanizations '
      'except Multani. Left out: Tamil words whose n a word list may turn dental, nasal clusters after another mark, dotted letters in Malayalam.',
      why=TESTS + 'one verse per script does not meet most rules.', files=['aksharamukha/PostOptions.py', POST, TR],
      mech=[('defaults per script', 'PostOptions.ApplyScriptDefaults'), ('rules', 'PostProcess.NasalToAnusvara, AnusvaraToNasal, MToAnusvara, YaToYYa, VaToBa, ...'), ('diacritics', 'PostProcess.RemoveDiacritics')],
      observe=['transliterate.process'], tech='reference-model differential over swept + generated words',
      note='Rules stated again on words in vf/native.py, on top of the charts of C01-C06.'),
 dict(id='C19', title='Numbers keep their digits in every script',
      statement='A decimal number, of any length and with or without leading zeros, written in the digits of the source script is written by every target in its own digits (or the ASCII ones '
      'where it has none), digit by digit, each with the same value as in the Unicode character database, with nativization on or off; line breaks and the characters - / + = % around numbers stay as they are.',
      over=['inputs', 'configurations'], quant='all digit strings, all pairs of scripts and romanizations. Left out: the notation Inter; Tolong Siki (its own font encoding); Kharoshthi and Old Persian (C20); '
      'Urdu and Shahmukhi as sources and as targets of Semitic scripts, Hebrew, Thaana and the romanizations of Semitic scripts; Tamil to IPA.',
      why=TESTS + 'hardly any test text contains a number, none an unusual pair.', files=[MAPS, 'aksharamukha/Convert.py', GM],
      mech=[('digit charts', 'ScriptMap/*/NumeralMap'), ('substitution', 'Convert.convertScript')],
      observe=['transliterate.process'], tech='generated numbers against the values of the Unicode character database',
      note='The expected digits are in spec/digits.json, each with the value unicodedata.digit gives it.'),
 dict(id='C20', title='Kharoshthi and Old Persian numbers have the value of the source number',
      statement='A number without leading zeros, at least 1, is written in Kharoshthi with signs for 1, 2, 3, 4, 10 and 20 added up from the largest, and those for 100 and 1000 preceded by their multiplier '
      '(left out when it is 1); in Old Persian with signs for 100, 20, 10, 2 and 1 repeated and added up from the largest; also with several numbers in a text, one contained in another, and whatever the source script.',
      over=['inputs', 'configurations'], quant='all numbers below 10^12 (Kharoshthi) and 10^5 (Old Persian), from all scripts with positional digits except Urdu and Shahmukhi. Reading such numbers back is left out.',
      why=TESTS + 'no test converts a number into these scripts.', files=[CF, MAPS],
      mech=[('Kharoshthi', 'ConvertFix.KharoshthiNumerals, kharoshthiNumber'), ('Old Persian', 'ConvertFix.OldPersianNumeral')],
      observe=['transliterate.process'], tech='exhaustive small and generated large numbers against an independent encoder',
      note='All numbers up to 1500 (quick) or 10000 (thorough).'),
 dict(id='C27', title='Re-spelling post-options apply their definition exactly, and nothing else',
      statement='With one of these post-options the output is the output without it, in which just the letters or signs the option is named after are replaced by their alternatives, wherever the definition applies '
      'and nowhere else; several options are applied in the order given; with nativization on or off and from any source. Vowel letters: BalineseAvowels, JavaneseAvowels, DevanagariAVowels, KawiDecomposedVowel, '
      'DevanagariPrishtamatra, NandinagariPrishtamatra, DevanagariACandra, UseAlternateI1/I2/II/U/VSU/VSUU (Siddham), KawiAltAiAU, ZanabazarSquareAiAu, GranthaOldau, archaicAIAU (Malayalam), MedievalTamilOrthography, '
      'ModiRemoveLong, KhojkiRRI, SundaneseRemoveHistoric, UseAlternateo1, TaiThamO, ThamTallADisable, noLongEO (ISO), UrduAlternateUU, UrduRemoveShortVowels. Consonants and clusters: Balinese/Javanese/KawiArchaicJNA, '
      'BengaliOldRA, DograShaKha, TakriArchaicKha, TakriRemoveGemination, GurmukhiYakaash, KannadaNakaraPollu, TeluguNakaraPollu, KannadaNotRepha, TeluguReph, dotReph, historicChillu, KhamtiShanRa, KhojkiQa, '
      'LimburemoveHistorical, MeeteiMayekremoveHistorical, NewaDisableRepha, NewaSpecialTa, NewaMurmurConsonants, OriyaVa, OriyaVaAlt, SaurashtraHaru, Soyombo/Zanabazar/Marchen/TibetanSanskritPalatals, SoyomboInitials, '
      'ThaanaRemoveHistorical, removePaliAhom, UseAlternateYA (Dives Akuru), TamilStyleUUCore. Signs: MalayalamCircVirama, MalayalamLineVirama, GurmukhiCandrabindu, Kannada/TeluguCandrabindu options, TeluguRemoveNukta, '
      'SinhalaChandrbinduAnusvara, TamilSubScript, TamilRemoveNumbers, TamilRemoveApostrophe, TamilOmDisable, jainomDevangari, TibetanNada, TibetanTsheg, TibetanRemoveVirama, ThaiVisargaSaraA, '
      'ZanabazarSquareMongolianFinal, Soyombo/Zanabazar tsheg, Kaithi/Khojki/BhaiksukiRetainSpace. Numbers and dandas: KhamiShanMyanmarNumerals, Retain<Script>Numerals (Telugu, Tamil, Malayalam, Gurmukhi), Retain<Script>Danda. '
      'Romanization: AnusvaratoNasalASTISO, NasalTilde, removeDiacritics, CyrillicPali, IASTPali, inherentAO, RomanLoCSasha, RomanLoCVaWa, LoCMarc8, MalayalamNTA, MalayalamTTNTA, readableItrans, capitalizeSentence. '
      'Further: MalayalamremoveHistorical, RephaDoubleMalayalam, FinalNNa, TamilDisableSHA, TamilAddFirstVarga, TamilGranthaVisarga, RemoveDiacritics, RemoveDiacriticsTamil, khandatabatova, BengaliConjunctVB, BengaliYYA, '
      'OriyaYYA, TeluguTamilRra, TibetanRemoveBa, DivesAkuruHomoOrganNasal, TaiThamHighNga, ChakmaVowelsIndependent, SinhalaDefaultConjuncts; in Hebrew HebrewKatevMalei, HebrewVetVav, removeNikkud; in Arabic and Persian '
      'ArabRemoveAdditions, persianPaGaFaJa, ArabicGimelGaGha, ArabicGimelPaBa, arabPaFa, arabChaSa, ArabAtoAleph, removeSukunEnd, removeDiacriticsArabic; in Syriac removeRukkaka, removeQussaya, removeMajliyana, removeVowelsSyriac. '
      'Options that put marks after Tamil letters are taken one at a time.',
      over=['inputs', 'configurations'], quant='all texts of the shared inventory with digits, dandas and punctuation, from the 21 main scripts and romanizations, into the script of the option.',
      why=TESTS + 'the tests use a handful of the options, each on one text.', files=[POST, TR],
      mech=[('options', 'PostProcess.<option>'), ('dispatch', 'transliterate.convert, PostProcess.ApplyFinalPostOptions, convert_default')],
      observe=['transliterate.process(post_options=[...])'], tech='metamorphic: output with the option against an independent definition applied to the output without it',
      note='178 option and target pairs; definitions as simultaneous substitutions in vf/options.py, by Unicode character names where telling.'),
 dict(id='C21', title='Options for numerals and dandas change just the numerals and dandas',
      statement='The post-option romanNumerals turns exactly the target\'s own digits of the output into ASCII digits; indicNumerals turns ASCII digits in the output into the digits of the target; romanFullStop writes the target\'s danda '
      'as a full stop and its double danda as two; indicDandas keeps the dandas of the source as । and ॥ (| and || in romanizations that write them so) whatever stop the target would use. '
      'All other characters of the output are as without the option, with nativization on or off.',
      over=['inputs', 'configurations'], quant='all texts with digits, dandas and punctuation from the main scripts and romanizations, into every non-Semitic target (indicDandas: from sources that write dandas or pipes).',
      why=TESTS + 'these options have at most one fixed text each.', files=[POST, TR, PRE],
      mech=[('options', 'PostProcess.defaultPost, RetainIndicNumerals, RetainDandasIndic'), ('sources', 'transliterate.convert_default (indicDandas), PreProcess.RetainPipeDanda, RetainDevangariDanda')],
      observe=['transliterate.process(post_options=[...])'], tech='metamorphic: output with the option against the reviewed digit and danda tables applied to the output without it',
      note='Targets whose danda is also a letter or a word divider (Velthuis, Itrans, OldPersian, DivesAkuru) are left out of the danda options; where both dandas are written alike, out of indicDandas.'),
 dict(id='C30', title='Canonically equivalent input gives the same output',
      statement='Two spellings of a text that Unicode defines as canonically equivalent (NFC, NFD, any mixture, marks of different combining classes in either order) give the same output up to canonical equivalence, from every Indic '
      'script, every romanization and the pointed Semitic scripts (Arabic, Persian, Urdu, Shahmukhi, Hebrew, Thaana, East and West Syriac) into every target, with nativization on or off: vowel signs and dotted letters given as one character or as several read alike.',
      over=['inputs', 'configurations'], quant='all texts in the 145 Indic and romanized sources and the 12 pointed Semitic ones, into all targets.',
      why=TESTS + 'they feed one spelling of each text.', files=[PRE, TR],
      mech=[('composition', 'PreProcess.PreProcess, PreProcess.normalize'), ('reading', 'Convert.convertScript')],
      observe=['transliterate.process'], tech='metamorphic: several equivalent spellings of generated texts against each other',
      note='The mixture and the order of marks are drawn per case; equality is judged on the NFD of the outputs.'),
 dict(id='C23', title='Semitic and other abjads correspond letter by letter',
      statement='Text in the 22 letters common to the Semitic abjads (Phoenician, Hebrew, Arabic, Syriac, Ugaritic, Nabataean, Old South Arabian, Sogdian, Thaana and the other scripts converted by gimeltra, with their '
      'Latin, Greek and ISO romanizations) converts between any two of them letter by letter into the usual spelling of the target: the corresponding letter for each letter, the final form at the end of a word '
      'where the target script has one and nowhere else, short and long vowel points to the corresponding points where both scripts have them, and spaces, line breaks and hyphens unchanged. Each further letter and letter group of a script - with a dot or other sign, a vowel group of two to four signs such as fatha with yeh and sukun (a diphthong) or alef with a vowel point - standing between the letters b and r converts as a unit to its sign in the scientific transcription, to the corresponding letter of another script that has one, and back from the transcription where it is the usual spelling.',
      over=['inputs', 'configurations'], quant='all texts over the letters that have one spelling in both scripts, all sequences of b + unit + r (g and p have variants in Arabic and South Arabian; with vowel points alef, waw and yod are left out), all ordered pairs of 37 scripts.',
      why=TESTS + 'they pin two samples of Sanskrit in each script, no word of unpointed letters and few final forms.', files=['aksharamukha/gimeltra.py', 'aksharamukha/json/gimeltra_data.json', PRE, POST, TR],
      mech=[('letter tables and simplification', 'gimeltra.Transliterator._to_latin, _from_latin'), ('final forms and ligatures', 'gimeltra.Transliterator._postprocess'),
            ('routing of the Semitic scripts', 'transliterate.convert')],
      observe=['transliterate.process'], tech='differential: generated words written in both scripts from an independent letter table',
      note='All letters are swept alone, first, inside and last in every pair; words of up to seven letters in lines of up to six words are random.'),
 dict(id='C22', title='Vedic accents are kept at their syllables',
      statement='The Vedic accents (anudatta U+0952, svarita U+0951, double svarita U+1CDA, in Devanagari after the anusvara or visarga of their syllable) are written in each target at the syllable they stand on and nothing else changes: as the same '
      'signs in the Indic scripts from Bengali to Telugu and Malayalam, as U+0331, U+030D and U+030E on the vowel (before anusvara and visarga) in the romanizations with diacritics, as \\_ \\\' \\" in HK, Itrans, Velthuis and '
      'WX, and as ↓ ↑ ↑↑ in the other Brahmic scripts and IPA (Grantha has signs of its own). From each of the main Indic scripts, and from each of the romanizations into the Indic scripts, they are read back from that spelling.',
      over=['inputs', 'configurations'], quant='all words of consonant-initial syllables with accents on any of them, in all ordered pairs of the 21 main scripts with an Indic member or both with diacritics, from Devanagari into all charted scripts, and back '
      'from those that are lossless.',
      why=TESTS + 'the texts hold no accents.', files=[CF, CV, PRE, POST],
      mech=[('accents of romanizations', 'ConvertFix.VedicSvarasLatinIndic, VedicSvarsIndicLatin, FixVedic'), ('diacritics', 'ConvertFix.VedicSvarasDiacrtics, VedicSvarasNonDiacritic'), ('other scripts', 'ConvertFix.VedicSvarasOthers')],
      observe=['transliterate.process'], tech='model-based: generated accented words spelled by the chart model in source and target; metamorphic (accents removed) for stacking scripts',
      note='Accents are drawn per syllable; the rest of each word is spelled by the models of C03 and C05.'),
 dict(id='C24', title='Library of Congress romanization follows its tables and reads back',
      statement='RomanLoC writes Assamese, Bengali, Gujarati, Devanagari, Oriya, Kannada, Telugu, Sinhala, Malayalam and Gurmukhi as in ISO 15919 with the ALA-LC differences of each script: ṃ for anusvara, or the nasal of its class before a stop '
      '(not in Bengali and Assamese), n̐ for candrabindu before a stop; e o long and ĕ ŏ short except in the four southern scripts and Sinhala; sh for ṣ in Assamese, Bengali, Gujarati and Oriya and for ś in Gurmukhi; w for v in Assamese, Oriya and Gurmukhi; ê for the '
      'Devanagari and Gujarati candra e; ṯ for Bengali khanda ta and ṯṯ for Malayalam ṟṟ; ḻ and l̳ for Devanagari ळ and ऴ; g͟h for ग़ in Devanagari and Gujarati. Read as RomanLoC into the script it came from, the text comes back (an assimilated anusvara as the nasal consonant).',
      over=['inputs', 'configurations'], quant='all texts of words over the full model alphabet of the ten scripts, both directions; except Gurmukhi tippi and ਲ਼, s before h where sh is a letter, and Bengali b after r or t.',
      why=TESTS + 'the LoC forms are tested on two sentences each.', files=[CF, CV, MAPS, PRE],
      mech=[('per-script tables', 'ConvertFix.FixRomanLoC… and the <Script>LoC mappings'), ('anusvara', 'PostProcess.AnusvaratoNasalASTISO')],
      observe=['transliterate.process'], tech='model-based: generated words against the ISO chart model with a per-script table of differences, and round-trip',
      note='Words are spelled by the chart models of C03; the LoC tables are transcribed in the check.'),
 dict(id='C28', title='Schwa deletion removes the vowels its rules name and nothing else',
      statement='With the pre-option RemoveSchwaHindi a Devanagari text is converted as if a virama stood where Hindi drops the inherent vowel: counting syllables from the end of a word, after a last consonant that follows a vowel, or that ends a geminate, a cluster '
      'with a final sibilant, or one of rising rank (semivowel, nasal, sibilant, velar or labial, dental or retroflex, palatal); after the last but one before a vowel sign; and after the third from the end before a consonant with its sign or inherent vowel (bhāratīya: bhārtīy), '
      'each only where the consonant is single, unmarked and follows a syllable. SchwaFinalGurmukhi and SchwaFinalGujarati do so for a word-final consonant, or conjunct of two, after a vowel, SchwaFinalBengali for a single one. All else is kept, '
      'and ShowSchwaHindi only adds signs U+0954.',
      over=['inputs', 'configurations'], quant='all texts of words over the full model alphabet, with a bias to inherent vowels, into 13 targets; except words with avagraha and the r with a joiner (and, in Gurmukhi, conjuncts with ਢ਼, itself a conjunct).',
      why=TESTS + 'each option is tested on one or two texts.', files=[PRE, POST],
      mech=[('Hindi rules', 'PreProcess.RemoveSchwaHindi'), ('final schwa', 'PreProcess.RemoveFinal')],
      observe=['transliterate.process'], tech='model-based: the rules as a function on abstract words; metamorphic (option on the word = no option on the word with viramas)',
      note='The rules are on lists of consonants and vowels; the code has them as regular expressions on text.'),
 dict(id='C36', title='Pre-options read the text as their definition rewrites it',
      statement='A pre-option changes how the source text is read by its definition and in nothing else: the conversion with it equals the conversion of the rewritten text without it (AnuChandraEqDeva reads candrabindu as anusvara, BengaliTargetVa and OriyaTargetVa b as v, the SubojinedVa ones only a subjoined b not after m or b, ShowKhandaTa khanda ta as t with virama and a sign, '
      'IASTPali, IASTLDotRetroflex and CyrillicPali ḷ as the retroflex l, swapEe exchanges e E and o O, longEOISO reads e o as long, TamilNumeralSub digits 2 3 4 after a consonant (and its sign) as superscripts, LimbuSpellingSaI the spelled-out finals as final signs, KhuenRaHaamKaren, TakriArchaicKha, DivesAkuruAlternateIndVowels, IPAIndic, ArabicGimelJa, novowelshebrewSemitic and holamlong the letters they name). '
      'Text written with a spelling post-option and read with the pre-option of its name comes back: ThaiSajjhayaOrthography, ThaiSajjhayawithA, LaoSajjhaya, LaoSajjhayawithA and LaoTranscription (Pali words), GranthaPrakrit, MalayalamPrakrit, SinhalaPali, BengaliSwitchYaYYa, swapEe, TamilNumeralSub (of TamilSubScript), the MoveRepha options and DivesAkuruAlternateIndVowels.',
      over=['inputs', 'configurations'], quant='all texts of words over the full alphabet into ten Indic or five Semitic targets (definitions); all words of the stated kinds from the main Indic scripts (round-trips).',
      why=TESTS + 'each option is tested on one or two texts.', files=[PRE, POST, TR],
      mech=[('pre-options', 'PreProcess.py, one function each'), ('their application', 'transliterate.convert')],
      observe=['transliterate.process'], tech='metamorphic: option = rewriting by an independent definition, and round-trip post-option/pre-option',
      note='The definitions name the letters; they do not call the functions of PreProcess.'),
 dict(id='C09', title='Nukta letters in the scripts that stack consonants',
      statement='In Tibetan (also its LoC form), Balinese, Javanese, Dives Akuru, Masaram Gondi, Khojki and Extended Tamil the nukta letters क़ ख़ ग़ ज़ ड़ ढ़ फ़ य़ and ऴ ऱ ऩ ळ are written as the base letter with the nukta sign of the script (or the letter the script has for them), alone and in two-letter clusters, with every vowel and mark, and read back as exactly these letters. '
      'In the other stacking scripts (Khmer, Burmese, Mon, the Tham scripts, Thai, Lao Pali, Sundanese, Rejang, Kawi, Saurashtra, Limbu, Zanabazar Square, Soyombo, Buginese, Marchen, Gunjala Gondi) a nukta letter without a cluster is written as its base letter, except the few the script has a letter for, which read back as themselves.',
      over=['inputs', 'configurations'], quant='all nukta letters x vowels x marks, all two-letter clusters with one, random words.',
      why=TESTS + 'the nukta letters in these scripts are tested one by one, with the vowel a.', files=[CF, PRE, POST, MAPS],
      mech=[('nukta letters', 'ScriptMap/EastIndic/*.py NuktaConsonantMap'), ('combining rules', 'ConvertFix.py')],
      observe=['transliterate.process'], tech='reference model of the spelling (chart of nukta letters) and round-trip',
      note='Doubled letters in Khojki, aa after nukta letters in the Burmese and Tham scripts, and au in Extended Tamil are outside.'),
 dict(id='C34', title='Spelling in alphabets, and in scripts with joining rules of their own',
      statement='A word of one or more syllables, each of at most two consonants, a vowel (अ–औ, ऋ, ॠ, ऌ, ॡ) or none, and at most one of ँ ं ः, is spelled in these scripts letter by letter with the letters of the script and its own joining rules (medial and final letters, carriers, order of signs, a separator `_` where two letters would read as one): '
      'Ariyaka, WX (Konkani), Inter, SLP1, Aksharaa, Baraha North and South, IPA, Tolong Siki, Mro, Santali, Warang Citi, Sora Sompeng, Wancho, Hanifi Rohingya, Avestan, Old Persian, Batak Simalungun, Buhid, Tagbanwa, Makasar, Meetei Mayek, Ahom, Chakma, Cham, Lepcha, Khom Thai, Mongolian, Phags-pa, Tamil-Grantha (font), RomanKana. '
      'Such a word written with letters that the script tells apart is read back exactly: all of them in Inter, SLP1, IPA and Tamil-Grantha, nearly all in WX (Konkani), Aksharaa and Baraha, the letters of the script itself elsewhere.',
      over=['inputs', 'configurations'], quant='all letters x vowels x marks, all two-letter clusters, random and Hypothesis words, thirteen source scripts.',
      why=TESTS + 'these scripts are tested with two or three texts each.', files=[CF, PRE, POST, MAPS],
      mech=[('letters', 'ScriptMap/*/*.py'), ('joining rules', 'ConvertFix.py Fix<Script>')],
      observe=['transliterate.process'], tech='reference model of the spelling per script, and round-trip of the letters told apart',
      note='Spellings that the scripts cannot tell apart are compared forward only; clusters of three are not generated; some contexts per script are left out (vf/rest.py ok, readable).'),
 dict(id='C29', title='Japanese kana: syllables, clusters, length, nasals',
      statement='A word of Devanagari (or another main Indic script but Tamil, Bengali, Gurmukhi, Sinhala) converts to Hiragana or Katakana syllable by syllable: aspirates, retroflexes and dentals of a place share their kana (nukta letters go with their nearest sound: फ़ as f, ज़ as z, ड़ as r), a long vowel is a second vowel kana (ā, ī, ū, ē, ō; in Katakana ー), ai and au two vowels; anusvara, candrabindu and न् are ん; visarga is h with the vowel repeated; '
      'a consonant before another one takes u (o after t and d, to keep the sound), a doubled one is a small tsu, k g p b m r with y a small ya/yu/yo. Without nativization l and ṅ are ら゚ and か゚ and foreign syllables have combinations with small vowels (すぃ, ほぅ); with it they are the nearest native kana (ら, んが, し, ふ). A comma is 、, a danda 。.',
      over=['inputs', 'configurations'], quant='all letters x vowels x marks, all two-letter clusters, random and Hypothesis words, both kana, with and without nativization.',
      why=TESTS + 'kana are not tested.', files=[TR, POST, 'aksharamukha/ScriptMap/NonIndic/kana2roman.py'],
      mech=[('kana', 'PostProcess.JapanesePostProcess'), ('Hepburn to kana', 'ScriptMap/NonIndic/kana2roman.py')],
      observe=['transliterate.process'], tech='reference model of the kana spelling',
      note='Only towards kana; vowels by themselves at the start of a word only; clusters with h second, or y after other letters, and some with foreign syllables (ts+i, ff+u, jj+e) are outside.'),
dict(id='C31', title='Alternative spellings and encodings of the input read like the standard ones',
statement='Where a source has several spellings of a letter, a text converts the same whichever is used, letter by letter and anywhere in a word: Itrans aa ii ee uu oo RRi RRI LLi LLI E O N^ JN chh shh x kS kshh GY dny w J .n .m .h c.o as A I I U U R^i R^I L^i L^I ^e ^o ~N ~n Ch Sh kSh kSh kSh j~n j~n v z M M (virama) A.c, c.e as e.c, OM AUM oM as Om, and . .. for | || into Indic scripts; BarahaNorth and BarahaSouth A I U kh gh ch Ch jh ph bh w sh ou Roo ~loo Y tx zh ~a ~h q # $ ^ ^^ as aa ee oo K G c C J P B v S au RU ~lU yx rx Lx ~e _h \\_ \\\' \\" () {}; IAST, ISO, Titus, IASTPali and ISOPali letters in upper case as in lower case; Malayalam chillus as consonant + virama + ZWJ, \u0d4c as \u0d57, archaic \u0d5f as \u0d08; Kannada and Telugu nakaara pollu as n + virama; Tamil \u0b95\u0bcd\u200c\u0bb7, \u0bb8\u0bcd\u0bb0\u0bc0, \u0bb0\u200c\u0bbf and subscript \u2082\u2083\u2084 as \u0b95\u0bcd\u0bb7, \u0bb6\u0bcd\u0bb0\u0bc0, \u0bb0\u0bbf, \u00b2\u00b3\u2074; two-part vowel signs of Bengali, Assamese, Oriya, Tamil, Malayalam, Kannada, Telugu, Sinhala and Grantha in two pieces (Bengali, Assamese, Tamil also in the other order); dotted letters of Devanagari, Gurmukhi, Bengali and Oriya in two pieces; Devanagari \u0972 as \u090d; Burmese great sa as s + stacked s; Thai \u0e0e as \u0e0f; Grantha old au sign, Limbu o in two pieces, Tibetan \u0f82, \u0f73, \u0f75, \u0f69 as \u0f83, \u0f71\u0f72, \u0f71\u0f74, \u0f40\u0fb5.',
over=['inputs', 'configurations'],
quant='for every text of such words, every choice of spelling per letter, every target',
why='Typed input mixes spellings freely; the alternatives are a chain of unordered string replacements in the pre-processing, where one more rule, or the same rules in another order, misreads some neighbouring letters only. The tests use one spelling per word.',
files=[PRE, CV, CF, MAPS], mech=[('alternates of Itrans and Baraha', 'PreProcess.py PreProcess'), ('encodings', 'PreProcess.py normalize'), ('letter case', 'Convert.py convertScript')],
observe=['transliterate.process'], tech='property-based testing: words rendered letter by letter with random alternatives, against the reference model in the target (other scripts: differential with the standard spelling); sweep of every letter and two-letter cluster; Hypothesis shrinking', note='Ambiguous Itrans and Baraha spellings are left out.'),
dict(id='C37', title='Foreign text between words passes through and leaves the words as they are',
statement='Text between the words that belongs neither to the source nor to the target script comes out unchanged in its place, and the words around it are converted as they are by themselves, from the main Indic scripts and IAST, ISO, HK, Titus, Itrans, Velthuis and WX into every target but IPA, with nativization on or off: CJK, Hangul, Yi, Ethiopic, Georgian and Armenian small letters, emoji, mathematical, currency, box-drawing and dingbat characters and arrows, punctuation ( ) [ ] { } \u201c \u201d \u2018 \u2014 \u2013 \u2026 / + = % @ # $ * < > " : ; , ! ? - and the like, a tab, and, from Indic scripts, Latin, Greek and Cyrillic words. It may touch the words on both sides or stand between spaces. Left out: \u2502 \u2503 \u2191 \u2193 \u00d7 superscript and subscript digits and the empty pairs () {} [], which the library uses as marks; * from HK, Itrans and Velthuis, where n*d is a letter; punctuation that the target has signs of its own for (brackets in Tibetan, ! ? in Limbu, , ; ? in Urdu, Shahmukhi, Thaana and Rohingya, < in Old Persian); Latin words touching words in a Latin target; text touching words in PhagsPa, Thai, RomanColloquial and RomanReadable.',
over=['inputs', 'configurations'], quant='for every source and target, every sequence of words and foreign tokens, touching or not, nativization on or off',
why=TESTS + 'none has text of another script in it; the conversion is a chain of substitutions over the whole text, where an internal mark, a character class or a word-boundary rule that is wider than meant changes text that is none of its business.',
files=[CV, CF, PRE, POST, TR], mech=[('substitution passes over the whole text', 'Convert.py convertScript'), ('word-boundary rules', 'PostProcess.py, ConvertFix.py'), ('options and nativization', 'transliterate.py convert')],
observe=['transliterate.process'], tech='metamorphic relation: the text with foreign tokens against the words converted one per line; random and Hypothesis texts over all targets', note='The conversion of each word by itself is taken from the library; C03-C06, C34 decide it.'),
dict(id='C18', title='Itrans text between ## and ## is left as it is',
statement='In Itrans text with pieces enclosed in ## and ##, each enclosed piece comes out exactly as written without its ## marks - whatever ASCII or foreign text it holds, including letters that are Itrans spellings (aa, oo, x, Ch, OM, |, ., \\\', ^, _) - and the words outside come out as they would by themselves: as the reference conversion without nativization, and as the library converts them alone with it. Targets: Devanagari, Bengali, Gujarati, Gurmukhi, Kannada, Malayalam, Oriya, Sinhala, Tamil, Telugu, IAST, ISO, HK, Velthuis and WX. The pieces are separated from the words by a space or line break or touch them, any number of them, several in a row.',
over=['inputs', 'configurations'], quant='for every sequence of Itrans words and enclosed pieces, every listed target',
why=TESTS + 'none has ##: normalization, the conversion and the post-processing each have to leave the pieces alone and must not mix up pieces and words.',
files=[PRE, CV, CF, TR], mech=[('splitting at ##', 'PreProcess.py PreProcess'), ('pieces taken out of the conversion', 'Convert.py convertScript')],
observe=['transliterate.process'], tech='metamorphic and model-based: the text with enclosed pieces against the reference conversion of the words with the pieces put back; random and Hypothesis texts', note='Needs the fix of this property recorded in known_findings.json.'),
dict(id='C32', title='Options that choose another form of a script convert into or from that form',
statement='A post-option that chooses another form of the target gives the text in that form: siddhammukta and siddhamap for Siddham as into SiddhamDevanagari, egrantamil for Grantha as into GranthaGrantamil, nepaldevafont for Newa as into Devanagari (these four as nativized or not as asked), LaoNative for Lao as into Lao2 with doubled t, th and s written dt, dth, ds and doubled p, ph written bp, bph (also over a preposed vowel), ranjanalantsa and ranjanawartu for Ranjana as into Tibetan without nativization with each tsheg a space, or a closing sign and a space, BengaliRaBa for Bengali as into BengaliRaBa without nativization, with the joiners that keep its ba apart. The pre-options siddhammukta (from Siddham) and egrantamil (from Grantha) read the text as SiddhamDevanagari or GranthaGrantamil; BalineseSimplified and JavaneseSimplified give, from Balinese and Javanese, the simplified Library of Congress romanization (jny as ny in Javanese) whatever the target. Sources: the main Indic scripts, IAST, ISO, HK, Itrans, Velthuis, WX, Sharada, Newa, Brahmi.',
over=['inputs', 'configurations'], quant='for every listed option, every source or target, every text of words and separators, nativization on or off',
why=TESTS + 'they use these options with one word or not at all; each switches the script in the middle of the conversion, where nativization, pre-processing and fixes of the old and the new script may mix.',
files=[TR, POST, PRE, GM], mech=[('script switches', 'transliterate.py convert'), ('the form itself', 'ScriptMap/EastIndic, PostProcess.py')],
observe=['transliterate.process'], tech='differential: the conversion with the option against the conversion into (from) the other form; random and Hypothesis texts', note='The conversion into the form itself is decided by C01-C06 and C33.'),
dict(id='C35', title='Semitic scripts: pointed text is read by the charts, alike into every target',
statement='Text in a Semitic script is read letter by letter and point by point. (1) Thaana, Arabic with harakat (Arab), Urdu and Shahmukhi with harakat (Arab-Ur, Arab-Pa; vav only as a vowel, bari ye only at the end of a word) and Hebrew with niqqud (Hebr): words of their consonants, each with a vowel point, sukun or sheva, of vowel letters with their carrier (initial, or, but in Urdu and Shahmukhi, after a short a) and, in the Arabic ones, of shadda, are read into Devanagari with the consonant and vowel of the charts, ayin with a vowel as the vowel letter with nukta (not with a diphthong), dotted letters as nukta letters, or all as the plain letters with nativization; Devanagari words of the letters that have one value are written back with the same letters and points (a Hebrew word that ends in a pointed kaf, mem, nun, pe or tsadi gets its final form). (2) From every Semitic script (the cuneiform, South Arabian, Aramaic, Syriac, Ethiopic, Greek and Latn transcriptions among them), words without nasal marks go into every Indic script and romanization exactly as their Devanagari reading does, nativization off; left out are IPA, RomanLoC, Vatteluttu, Urdu, Shahmukhi, Hebrew and Thaana as targets. (3) Words from the main Indic scripts and romanizations go into every Semitic script as the same words in Devanagari do, nativization on or off.',
over=['inputs', 'configurations'], quant='for every word of letters and points, every Semitic script, every source and target, nativization on or off',
why=TESTS + 'they fix no pointed words; the letters go through a transcription, point rules that depend on the letters around, and a replacement over one shared alphabet, where an order or a look-ahead that is off shows only in certain neighbours.',
files=[PRE, CV, CF, TR, 'aksharamukha/gimeltra.py'], mech=[('point and vowel rules', 'PreProcess.py FixSemiticRoman, ConvertFix.py FixHebrew, FixThaana'), ('transcription', 'gimeltra.py'), ('Semitic branches', 'Convert.py convertScript')],
observe=['transliterate.process'], tech='reference model of letters and points; metamorphic relations by way of Devanagari; exhaustive pairs, random and Hypothesis words', note='Parts 2 and 3 take the conversion from Devanagari from the library; C03-C06 and C34 decide it for the Indic scripts and C23 for the letters of the abjads.'),
dict(id='C38', title='Any Brahmic script goes into every target as its Devanagari reading does',
statement='Converting words of a Brahmic script into a target gives the same text as converting them into Devanagari and that into the target, with the same nativization setting at both steps: from every Indic script of the library, the Southeast Asian, Tham, Batak and Philippine ones included, into every Indic script, romanization and Semitic script. Left out as sources are Urdu, Shahmukhi, Hebrew, Thaana, Old Persian, Cham, Lao2, BatakKaro, TamilBrahmi, KhmerLoC, Shan, ShanLoC, KhamtiShan and TaiLaing, and as targets IPA, RomanLoC and Aksharaa, whose conventions depend on the source, as do some pairs of close relatives: Bengali, Assamese, BengaliRaBa, GranthaGrantamil and TamilGrantha with each other; ThamLoC into the Tham scripts; the other Batak scripts into BatakKaro; Lao and LaoPali; Gurmukhi into GurmukhiLoC; Tamil and Oriya into RomanColloquial and RomanReadable; Marchen, Lepcha and PhagsPa into Wancho and WarangCiti; Lepcha into Vatteluttu; KhomThai and Kharoshthi into LimbuLoC.',
over=['inputs', 'configurations'], quant='for every source script, every target, every word, nativization on or off',
why=TESTS + 'they go from a few scripts; a pair of scripts is converted by merging two tables and replacing over the whole text in an order that depends on both, so a table entry or a clean-up of one script may harm only the pairs with certain others, among some 14000 pairs.',
files=[CV, CF, GM, MAPS, TR], mech=[('tables of two scripts merged', 'Convert.py convertScript'), ('clean-up for source and target', 'ConvertFix.py'), ('options', 'transliterate.py convert')],
observe=['transliterate.process'], tech='metamorphic relation over all pairs of source and target: random words converted directly and by way of Devanagari', note='Both sides come from the library: what is wrong in the reading for all targets alike is left to C03, C05 and C06.'),
]
