From 90ab2377262a560d9444bd111e91c173a2fdf419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 01/51] fix: keep RR and LL apart before i in ITRANS output
 (was R_L)

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index e6e4b2a..efcdeea 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -340,7 +340,7 @@ def PostFixRomanOutput(Strng,Source,Target):
         Strng = FixMongolian(Strng)
 
     if Target == "Itrans":
-        Strng = re.sub('([aAiIuUeo])(RR)(i|I)', r'\1'+'R_L' + r'\3', Strng)
+        Strng = re.sub('([aAiIuUeo])(RR)(i|I)', r'\1'+'R_R' + r'\3', Strng)
         Strng = re.sub('([aAiIuUeo])(LL)(i|I)', r'\1'+'L_L'+ r'\3', Strng)
 
     if Source == "RomanSemitic":
-- 
2.43.0


From 483d6742a10d9bfdebc71357bd4014f6074f40bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 02/51] fix: read the a_ii and a_uu separators written for
 Velthuis back as hiatus

---
 aksharamukha/Convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 9a1cf43..880d32d 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -132,6 +132,9 @@ def convertScript(Strng,Source,Target):
         ## a_i => a<dev>i<dev> ; a_u = a<dev>u<dev>
         Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[2],  GM.CrunchSymbols(GM.Vowels,Target)[2])
         Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[4],  GM.CrunchSymbols(GM.Vowels,Target)[4])
+        ## a_ii and a_uu, as written in schemes that double the vowel letter (Velthuis)
+        Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[3],  GM.CrunchSymbols(GM.Vowels,Target)[3])
+        Strng=Strng.replace('_' + GM.CrunchSymbols(GM.Vowels,Target)[5],  GM.CrunchSymbols(GM.Vowels,Target)[5])
 
         ## Joiners Vir + ZWJ
         vir = GM.CrunchList('ViramaMap', Target)[0]
-- 
2.43.0


From 0d63811720d65062f7e6e7f33013e0730c064618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 03/51] fix: match Velthuis o.m literally (any letter between o
 and m was read as Om)

---
 aksharamukha/Convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 880d32d..9237dfe 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -78,7 +78,7 @@ def convertScript(Strng,Source,Target):
         punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)]+ ['\s']
                     + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
 
-        sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
+        sOm, tOm = re.escape(GM.CrunchList('OmMap', Source)[0]),GM.CrunchList('OmMap', Target)[0]
 
         Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
-- 
2.43.0


From 95fd77c860a85ebb10e59a9ab88f335f3e59c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 04/51] fix: recognise every Om in a run of repeated Oms

---
 aksharamukha/Convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 9237dfe..bca2d26 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -80,7 +80,7 @@ def convertScript(Strng,Source,Target):
 
         sOm, tOm = re.escape(GM.CrunchList('OmMap', Source)[0]),GM.CrunchList('OmMap', Target)[0]
 
-        Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+        Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
         Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
         Strng = re.sub('^' + sOm + '$', tOm, Strng)
@@ -188,7 +188,7 @@ def convertScript(Strng,Source,Target):
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
         if len(sOm) != 1:
-            Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
+            Strng = re.sub(punc + sOm + '(?=' + punc + ')', r'\1' + tOm, Strng)
             Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
             Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
             Strng = re.sub('^' + sOm + '$', tOm, Strng)
-- 
2.43.0


From b1f0f5bcf7286d34e3e7aa840cb5aa47dc4017d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 05/51] fix: only a standalone Om is romanized as Om

---
 aksharamukha/Convert.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index bca2d26..c6ec3ee 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -238,7 +238,14 @@ def convertScript(Strng,Source,Target):
         #print(Strng)
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
-        Strng = Strng.replace(sOm, tOm)
+        if len(sOm) != 1:
+            punc =  '(' + '|'.join(["\u005C"+x for x in list(string.punctuation)]+ ['\s']
+                    + [x.replace('.', '\.') for x in GM.CrunchSymbols(GM.Signs,Source)[1:3]]) + ')'
+
+            Strng = re.sub('(^|' + punc + ')' + sOm + '(?=' + punc + '|$)', r'\1' + tOm, Strng)
+
+        if len(sOm) == 1:
+            Strng = Strng.replace(sOm, tOm)
 
         # Iterate for each character group
         for charList in GM.ScriptAll:
-- 
2.43.0


From 71c5babffb5a092570b38be9d34514b9763045a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:56 +0000
Subject: [PATCH 06/51] fix: read the Dives Akuru repha back as r before the
 consonant

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index efcdeea..c0ccd7e 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -1465,7 +1465,7 @@ def FixDivesAkuru(Strng,reverse=False):
         # Reverse : Replace Explicit Virama + Cons -> Subjoining Virama + Cons
         Strng = re.sub('\U00011940', vir +ya, Strng)
         # Reverse : Introduce Repha : ra + sub Virama + Cons -> Cons + Repha
-        Strng = re.sub('\U00011941', vir +ra, Strng)
+        Strng = re.sub('\U00011941', ra + vir, Strng)
 
 
     return Strng
-- 
2.43.0


From 21605dc0b27f172bb318c1782c84607177940d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 07/51] fix: read the Kawi vowel signs for long r, l and long l
 back

---
 aksharamukha/ConvertFix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index c0ccd7e..9ce1b14 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -1507,6 +1507,7 @@ def FixKawi(Strng,reverse=False):
     else:
         # Replace Subjoining Virama with Explicit Virama
         Strng = Strng.replace('\U00011F42',vir)
+        Strng = re.sub(vir+'(?=[\U00011F0B\U00011F0C\U00011F0D])','\U00011F42',Strng)
         # Replace Repha
         Strng = Strng.replace('\U00011F02', ra + vir)
         # reverse AltA
-- 
2.43.0


From f7b804439829632d2894e90c8ca9a46ecb8c373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:07 +0000
Subject: [PATCH 08/51] fix: romanize Batak as ISO when LoC is asked for (no
 LoC map exists; conversion crashed)

---
 aksharamukha/GeneralMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index bc19824..895405b 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -215,7 +215,7 @@ romanNumeralScripts = ['Tamil', 'Gurmukhi', 'Malayalam', 'Telugu']
 romanPunctscripts = ['Tamil', 'Kannada', 'Malayalam', 'Telugu', 'Gujarati']
 
 ## List of supported LoC scripts
-LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'BatakKaro', 'BatakManda','BatakPakpak','BatakSima','BatakToba','Gurmukhi', 'Tibetan', 'Limbu']
+LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'Gurmukhi', 'Tibetan', 'Limbu']
 
 #Modified Src Input Map for LoC script
 #speicalpostpre process
-- 
2.43.0


From 5806d53243751a7fd6a35dcd3b3ec6bf654ad1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 09/51] fix: define the PersianDMGSource steps (every
 conversion from PersianDMG crashed)

---
 aksharamukha/PostProcess.py | 4 ++++
 aksharamukha/PreProcess.py  | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 2c0d907..5b920e0 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -210,6 +210,10 @@ def PersianDMGSBLSource(Strng):
 
     return Strng
 
+def PersianDMGSource(Strng):
+
+    return Strng
+
 #testcase todo
 def ISO233Target(Strng):
     replacements = [('j', 'ǧ'), ('g', 'ǧ'), ('ḧ', 'ẗ'), ('ḫ', 'ẖ'), ('a̮', 'ỳ'), ('ˀ', 'ˈ'), \
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 581697b..af11b33 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1422,6 +1422,14 @@ def PersianDMGTarget(Strng):
 
     return Strng
 
+def PersianDMGSource(Strng):
+    replacements = [('ḏ', 'ẕ'), ('ḍ', 'ż'), ('ṯ', 's̱'), ('ṯ', 's\\_'), ('j', 'ǧ'), ('ˀ', 'ʼ')]
+
+    for x, y in replacements:
+        Strng = Strng.replace(y, x)
+
+    return Strng
+
 def ISO233Source(Strng):
     replacements = [('أ', 'ˈʾ'), ('ء', '¦'), ('إ', 'ˌʾ')]
 
-- 
2.43.0


From 8f3bdb9f81165b7245f19ad81674c461065a6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 10/51] fix: autodetect of empty or unnamed-only text, of
 Burmese after a line break, and with script/language codes and names

---
 aksharamukha/gimeltra.py      |  2 +-
 aksharamukha/transliterate.py | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/aksharamukha/gimeltra.py b/aksharamukha/gimeltra.py
index a0a66f6..27a1977 100644
--- a/aksharamukha/gimeltra.py
+++ b/aksharamukha/gimeltra.py
@@ -30,7 +30,7 @@ class Transliterator(object):
 
     def auto_script(self, text):
         sc_count = Counter([ucd.script(c) for c in text])
-        sc = sc_count.most_common(1)[0][0]
+        sc = sc_count.most_common(1)[0][0] if sc_count else ''
         if not sc:
             sc = 'Zyyy'
         return sc
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 400eb15..9c94e62 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -77,7 +77,7 @@ def auto_detect(text, plugin = False):
         else:
             script = ''
 
-    inputScript = script[0].upper() + script[1:]
+    inputScript = script[:1].upper() + script[1:]
 
     laoPali = ['ຆ', 'ຉ', 'ຌ', 'ຎ', 'ຏ', 'ຐ', 'ຑ', 'ຒ', 'ຓ', 'ຘ', 'ຠ', 'ຨ', 'ຩ', 'ຬ', '຺']
 
@@ -103,8 +103,8 @@ def auto_detect(text, plugin = False):
         for uchar in text:
             try:
                 char = unicodedata.name(uchar).lower()
-            except:
-                pass
+            except ValueError:
+                continue
             if 'shan' in char:
                 countSub['Shan'] += 1
             elif 'tai laing' in char:
@@ -701,7 +701,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
 
     if src_tag == 'autodetect':
         src = [(0, auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -826,7 +826,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
     if src_tag == 'autodetect':
         src = [(0,auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -851,8 +851,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
 def process_lang_name(src_name, tgt_name, txt, nativize, post_options, pre_options):
     if src_name == 'autodetect':
-        src = auto_detect(txt)
-        pre_options = detect_preoptions(txt, src)
+        src = src_name # detected by process_lang_tag
     else:
         src = str(langcodes.find(src_name))
 
-- 
2.43.0


From 9a85cb3cdb89f2f69607fb9b7c1cd83af853c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 11/51] fix: danda options crashed when the source or target is
 a Semitic script

---
 aksharamukha/PostProcess.py   | 3 ++-
 aksharamukha/transliterate.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 5b920e0..5fc3e64 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -34,7 +34,8 @@ def defaultPost(src, tgt, Strng, nativize, preoptions, postoptions):
     if 'indicNumerals' in postoptions:
         Strng = RetainIndicNumerals(Strng,tgt,reverse=False)
     if 'romanFullStop' in postoptions:
-        Strng = RetainDandasIndic(Strng, tgt, reverse=True)
+        if tgt not in GM.SemiticScripts:
+            Strng = RetainDandasIndic(Strng, tgt, reverse=True)
 
     #Devanagari Dandas
     if tgt not in GM.Transliteration:
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 9c94e62..3e20e0f 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -408,7 +408,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
     if 'indicDandas' in postoptions:
         if src in GeneralMap.pipeScripts and '|' in txt:
             txt = PreProcess.RetainPipeDanda(txt, src)
-        elif GeneralMap.CrunchList('SignMap', src)[1] == '।':
+        elif src not in GeneralMap.SemiticScripts and GeneralMap.CrunchList('SignMap', src)[1] == '।':
             preoptions = preoptions + ['RetainDevangariDanda']
         else:
             if tgt not in GeneralMap.Transliteration:
-- 
2.43.0


From ba1e9ffeeb80b1462ac5ee33218b78d97c0f3413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 12/51] fix: pre-options removeZW, OriyaSubojinedVa and
 IPAIndic crashed or returned nothing

---
 aksharamukha/PreProcess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index af11b33..9d6fca6 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -139,7 +139,7 @@ def BalineseMoveRepha(Strng):
     return BalineseJavaneseMoveRepha(Strng, 'Balinese', 'ᬃ')
 
 def OriyaSubojinedVa(Strng):
-    Strng = re.sub('(??<![ମବ])(୍ବ)', '୍ୱ', Strng)
+    Strng = re.sub('(?<![ମବ])(୍ବ)', '୍ୱ', Strng)
 
     return Strng
 
@@ -1675,7 +1675,7 @@ def normalize(Strng,Source):
 
 # Remove ZWJ/ZWNJ characters
 def removeZW(Strng):
-    Strng = Strng.replace("\u200C").replace("\u200D")
+    Strng = Strng.replace("\u200C", "").replace("\u200D", "")
 
     return Strng
 
@@ -1799,4 +1799,4 @@ def IPAIndic(Strng):
     Strng = Strng.replace("ʊ","u")
     Strng = Strng.replace("ɛ","e")
 
-    return
+    return Strng
-- 
2.43.0


From c514e8f3acc792e58273146ce22abda9b010b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 13/51] fix: numeral and full-stop options were ignored for
 Tamil together with RemoveDiacritics

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 3e20e0f..1d0c8fb 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -516,7 +516,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
 
     if 'RemoveDiacritics' in postoptions:
       if tgt == 'Tamil':
-        postoptions = map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions)
+        postoptions = list(map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions))
 
     for options in postoptions:
       transliteration = getattr(PostProcess, options)(transliteration)
-- 
2.43.0


From 8ad47b5bfa3fb4584db40ed91a1b25acc3b976c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 14/51] fix: Tai Tham Mai Kang Lai after a vowel sign and -ry-
 clusters were not read back

---
 aksharamukha/ConvertFix.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 9ce1b14..242e4e5 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3263,6 +3263,9 @@ def FixTaiTham(Strng,reverse=False):
     Cons = [vir+x for x in [TaiTham.ConsonantMap[x] for x in [26,27]]] # /ra/ and /la/
     Sub =['\u1A55','\u1A56'] # Subjoined Forms of /ra/ and /la/
 
+    if reverse:
+        Strng = Strng.replace('\u1A60\u1A3F\u1A55', '\u1A55\u1A60\u1A3F') # Rever krya
+
     # Ra/La + vira -> Subjoined
     for x,y in zip(Cons,Sub):
         if not reverse:
@@ -3302,12 +3305,10 @@ def FixTaiTham(Strng,reverse=False):
     else:
         AA = 'ᩣ'
         Strng = Strng.replace('ᩔ', 'ᩈ᩠ᩈ') ## Reverse great sa
-        Strng = re.sub('('+ListC+')'+'\u1A58',r'\1' + ng,Strng) # Reverse: Kai mang Lai -> ng + virama
+        Strng = Strng.replace('\u1A58', ng) # Reverse: Kai mang Lai -> ng + virama
         Strng = Strng.replace('\u1A60',vir) # Regular Virama for Transliteration
         Strng = Strng.replace("ᩤ", AA) # Reverse Tall A
 
-        Strng = Strng.replace('\u1A60\u1A3F\u1A55', '\u1A55\u1A60\u1A3F') # Rever krya
-
 
     return Strng
 
-- 
2.43.0


From 6c5fe675c3e6553364786035917792da652fc7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 15/51] fix: a Thai cluster at the very start of the text is
 spelled as after white space

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 242e4e5..d957fb7 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2179,7 +2179,7 @@ def ThaiDigraphConjuncts(Strng,reverse=False):
     #Replace \s with all punctuations
     if not reverse:
         # Comments
-        Strng = re.sub("(?<=\s)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
+        Strng = re.sub("(?<!\\S)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+yrlvh+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+sh+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
     else:
-- 
2.43.0


From 643e4c7d67c8f41ff6630089861f8ac6c4070982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 16/51] fix: comments, doctype, scripts and style sheets of
 HTML files are not text to convert

---
 aksharamukha/transliterate_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1e5e978..e332c78 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -4,6 +4,7 @@ import os
 from lxml import etree
 from zipfile import ZipFile
 from bs4 import BeautifulSoup
+from bs4.element import PreformattedString, Script, Stylesheet
 import warnings
 
 MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/main}t"
@@ -43,6 +44,9 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     soup = BeautifulSoup(html)
 
     for node in soup.findAll(text=True):
+        # comments, doctype, scripts and style sheets are not text
+        if isinstance(node, (PreformattedString, Script, Stylesheet)):
+            continue
         new_node = node.replace(node.string, convert(src, tgt, node.string, nativize, pre_options, post_options))
         node.replace_with(new_node)
 
-- 
2.43.0


From bc01aa957289397cdd71ac8385410b94815f38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 17/51] fix: a Word file with an empty text element crashed

---
 aksharamukha/transliterate_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index e332c78..c336e6a 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -99,7 +99,7 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
     with old_archive.open(item, 'r') as xml_file:
         tree = etree.parse(xml_file)
         for element in tree.getroot().iter():
-            if element.tag == MS_WORD_TEXT_SCHEMA:
+            if element.tag == MS_WORD_TEXT_SCHEMA and element.text:
                 element.text = convert(data['source'],
                                        data['target'],
                                        element.text,
-- 
2.43.0


From eec7006e80286d9f57afaf86434ced3234f70272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 18/51] fix: pre- and post-options were swapped for Word files

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index c336e6a..c65ede3 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -104,8 +104,8 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
                                        data['target'],
                                        element.text,
                                        data['nativize'],
-                                       data['post_options'],
-                                       data['pre_options'])
+                                       data['pre_options'],
+                                       data['post_options'])
 
         string = etree.tostring(tree.getroot(),
                                 xml_declaration=True,
-- 
2.43.0


From 98513ac5fd941d3608d4540ab5f3ee329fb93cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 19/51] fix: the type of a file is told by its extension, not
 by any part of its path

---
 aksharamukha/transliterate_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index c65ede3..f957d8d 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -11,11 +11,13 @@ MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/
 
 def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
     if os.path.isfile(file):
-        if '.txt' in file:
+        extension = os.path.splitext(file)[1]
+
+        if extension == '.txt':
             convert_txt(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.docx' in file:
+        elif extension == '.docx':
             convert_docx(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.htm' in file:
+        elif extension in ['.htm', '.html']:
             convert_html(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
         else:
             warnings.warn('Only .txt, .html, .docx formats are supported for file conversion. Input file not processed.')
-- 
2.43.0


From 92254d6ef40af37036ffc171cb425851b460e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 20/51] fix: language codes listed after the first of a script
 (hin, mar, tam, tel, ...) were not found

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 1d0c8fb..e5e0dbb 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -644,7 +644,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
         # get the popuation of each language of the script
         if 'lang' in data_loaded[scrpt].keys():
             lang_tag = data_loaded[scrpt]['lang'].split(',')[0]
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             population = 0
             lang = ''
@@ -741,7 +741,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
     # iterate through the yaml file
     for scrpt in data_loaded.keys():
         if 'lang' in data_loaded[scrpt].keys():
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             lang = ''
 
-- 
2.43.0


From 6247fcec9fee352d034f3cdf01a7fd6af49caa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 21/51] fix: autodetect of Gunjala Gondi, Masaram Gondi and
 Hanifi Rohingya gave a name the library does not know

---
 aksharamukha/transliterate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index e5e0dbb..54b7ee6 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -147,6 +147,12 @@ def auto_detect(text, plugin = False):
         inputScript = 'RussianCyrillic'
     elif inputScript == 'Zanabazar':
         inputScript = 'ZanabazarSquare'
+    elif inputScript == 'Gunjala':
+        inputScript = 'GunjalaGondi'
+    elif inputScript == 'Masaram':
+        inputScript = 'MasaramGondi'
+    elif inputScript == 'Hanifi':
+        inputScript = 'HanifiRohingya'
     elif inputScript == 'Syriac':
         inputScript = 'Syre'
         eastern_dia = 'ܲ ܵ ܝܼ ܘܼ ܸ ܹ ܘܿ'.split(' ')
-- 
2.43.0


From 1613c125e8ac2dd3a8d8cae5d5ede91dd6f8745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 22/51] fix: keep the low line of Sindhi implosives in
 Malayalam (removed only after a chillu)

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 5fc3e64..831bc2e 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2518,7 +2518,7 @@ def MalayalamChillu(Strng, reverse=False, preserve=False):
             Strng = re.sub(ListC + GM.VedicSvaras + '('+ConVir[i]+')'+'(?=(['+''.join(CList[i])+'])' + vir + r'\4' + ')',r'\1\2' + Chillus[i],Strng)
 
         ## remove _ appearing due to the preserve chillu option
-        Strng = re.sub('(?<!ത്)ˍ', '', Strng)
+        Strng = re.sub('(?<=[' + vir + ''.join(Chillus) + '])(?<!ത്)ˍ', '', Strng)
 
     else:
         if preserve:
-- 
2.43.0


From 7a8a046fab23a0d66cf5b83f6f5f1808dbac4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 23/51] fix: Multani DDDA is written for the implosive of DDA,
 not for a letter U

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index d957fb7..22dad9b 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3539,7 +3539,7 @@ def FixAhom(Strng, reverse = False):
 def FixMultani(Strng, reverse = False):
     if not reverse:
         Strng = Strng.replace('\u02BE','').replace('\u02BF','')
-        Strng = Strng.replace('ˍ\U0001128C', '\U0001128D').replace('ˍ\U00011282','\U00011293') ## Plosives
+        Strng = Strng.replace('ˍ\U0001128C', '\U0001128D').replace('ˍ\U00011292','\U00011293') ## Plosives
 
     else:
         Strng = Strng.replace('\U0001128D','ˍ\U0001128C').replace('\U00011293','ˍ\U00011292') ## Plsosives
-- 
2.43.0


From ba84ecac266109ec2bcd92396afe1da667f9152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 24/51] fix: JavaneseAvowels replaces only independent vowels,
 the longer ones first (not the ra and la under a pangkon)

---
 aksharamukha/PostProcess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 831bc2e..abc4225 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -1890,8 +1890,9 @@ def JavaneseAvowels(Strng):
     vowelsA = ['ꦄꦶ', 'ꦄꦷ', 'ꦄꦸ', 'ꦄꦹ', 'ꦄꦽ', 'ꦄ꧀ꦉꦴ', 'ꦄ꧀ꦭꦼ', 'ꦄ꧀ꦭꦼꦴ', 'ꦄꦺ', 'ꦄꦻ', 'ꦄꦺꦴ', 'ꦄꦻꦴ']
     vowels = ['ꦆ', 'ꦇ', 'ꦈ', 'ꦈꦴ', 'ꦉ', 'ꦉꦴ', 'ꦊ', 'ꦋ', 'ꦌ', 'ꦍ', 'ꦎ', 'ꦎꦴ']
 
-    for v, vA in zip(vowels, vowelsA):
-        Strng = Strng.replace(v, vA)
+    # independent vowels only (not those under a pangkon), the longer ones first
+    for v, vA in sorted(zip(vowels, vowelsA), key=lambda pair: len(pair[0]), reverse=True):
+        Strng = re.sub('(?<!꧀)' + v, vA, Strng)
 
     return Strng
 
-- 
2.43.0


From b4f15936ef0cc00f9fcae0de03d00384f113ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 25/51] fix: UrduAlternateUU looked for a literal backslash and
 never changed anything

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index abc4225..4de475b 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -3096,7 +3096,7 @@ def SinhalaPali(Strng, reverse = False):
     return Strng
 
 def UrduAlternateUU(Strng):
-    Strng = Strng.replace("\\u064F\\u0648","\u0648\u0657")
+    Strng = Strng.replace("\u064F\u0648","\u0648\u0657")
 
     return Strng
 
-- 
2.43.0


From 26a42ad6e98b50bc5eea54ff3a0e3e73f668ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 26/51] fix: romanFullStop gives one stop for a danda written
 like the double danda or the full stop itself (Batak, Shan LoC romanization)

---
 aksharamukha/PostProcess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 4de475b..b62c16e 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -2898,8 +2898,10 @@ def RetainDandasIndic(Strng, Target, reverse=False):
         Strng = Strng.replace('..', Dandas[1])
         Strng = Strng.replace('.', Dandas[0])
     else:
+        # the double danda first: it may be the single one twice, or the full stop itself
+        if Dandas[1] != Dandas[0]:
+            Strng = Strng.replace(Dandas[1], '..')
         Strng = Strng.replace(Dandas[0], '.')
-        Strng = Strng.replace(Dandas[1], '..')
 
     return Strng
 
-- 
2.43.0


From e99a8df5af40cfb6b5880c5de6038962a255d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 27/51] fix: canonically equivalent input is read alike
 (decomposed Indic vowel signs, decomposed IAST/ISO and other romanized
 letters came out broken)

---
 aksharamukha/PreProcess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 9d6fca6..277ae7a 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1273,6 +1273,10 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     if Source in GM.RomanDiacritic or Source == 'Latn':
         Strng = Strng.lower()
 
+    ## Canonically equivalent text reads alike: compose it before anything looks at single characters
+    if Source in GM.IndicScripts or Source in GM.LatinScripts or Source in GM.semiticISO or Source == 'Latn':
+        Strng = unicodedata.normalize('NFC', Strng)
+
     if Source in GM.pipeScripts:
         if '|' in Strng:
             Strng = Strng.replace(".", "●")
-- 
2.43.0


From 5b68b607fac095b129d2555e37777ce9dc0fc510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 28/51] fix: no debug print of the text when Baraha is
 converted to Tamil

---
 aksharamukha/PreProcess.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 277ae7a..2e14d8b 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1344,7 +1344,6 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
 
         if Target == 'Tamil':
             Strng = Strng.replace('n', 'nx').replace('~nx', 'n')
-            print(Strng)
 
     if 'IAST' in Source:
         Strng = Strng.replace("aï", "a_i")
-- 
2.43.0


From c81f9bb44950bd6cfb59581d997637d856198f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 29/51] fix: the Ugaritic word divider is read as a space (was
 dropped, joining the words)

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 22dad9b..75c2f84 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3106,7 +3106,7 @@ def FixUgar(Strng, Source, reverse=False):
         Strng = Strng.replace("𐎒²","𐎝")
         Strng = Strng.replace(' ', '𐎟')
     else:
-        Strng = Strng.replace('𐎟', '')
+        Strng = Strng.replace('𐎟', ' ')
 
     return Strng
 
-- 
2.43.0


From b102b75ac70a4c8772f024a12e418b9571cdf674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 30/51] fix: an anudatta under a vowel with a macron or breve
 is read as such also where composition reorders the marks

---
 aksharamukha/PreProcess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 2e14d8b..22a3f2b 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1276,6 +1276,8 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     ## Canonically equivalent text reads alike: compose it before anything looks at single characters
     if Source in GM.IndicScripts or Source in GM.LatinScripts or Source in GM.semiticISO or Source == 'Latn':
         Strng = unicodedata.normalize('NFC', Strng)
+        ## ... which puts an anudatta (below) before the macron or breve (above) of its vowel, such as l̥̄
+        Strng = re.sub('\u0331([\u0304\u0306\u0302]+)', r'\1' + '\u0331', Strng)
 
     if Source in GM.pipeScripts:
         if '|' in Strng:
-- 
2.43.0


From b8361ea66c55292c83f78a68b35fb3d0710c9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 31/51] fix: RemoveSchwaHindi deletes the vowel of an aspirated
 geminate at the end of a word only

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 22a3f2b..441896e 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1042,7 +1042,7 @@ def RemoveSchwaHindi(Strng, showschwa=False):
     Strng = re.sub(ISyl + '('+'|'.join(ConUnAsp)+')'+'('+vir+')('+r'\8'+")(?!" + Char + ")", r'\1\8\9\10' + vir,Strng)
 
     for i in range(len(ConAsp)):
-        Strng = re.sub(ISyl +'('+ConUnAsp[i]+')'+'('+vir+')'+'('+ConAsp[i]+')'+'(?!" + Char + ")', r'\1\8\9\10' + vir,Strng)
+        Strng = re.sub(ISyl +'('+ConUnAsp[i]+')'+'('+vir+')'+'('+ConAsp[i]+')'+"(?!" + Char + ")", r'\1\8\9\10' + vir,Strng)
 
     #Strng = re.sub(VowI + Nas + Cons2+"(?!" + Char + ")", r'\1\2\3' + vir, Strng)
 
-- 
2.43.0


From 44bacf2cdf56017d7926afac0070fd30e9484f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 32/51] fix: the SchwaFinal options delete the vowel also after
 an independent vowel with a nasal sign

---
 aksharamukha/PreProcess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 441896e..8861412 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1069,7 +1069,7 @@ def RemoveFinal(Strng, Target):
     Char = "(" + '|'.join(GM.CrunchSymbols(GM.Characters, Target)) + ")"
     Nas = "([" + '|'.join(GM.CrunchList('AyogavahaMap',Target)) + "]?)"
 
-    ISyl = "((" + VowI + "|" + "(" + Cons + VowS + "?" + ")" + Nas + '))'
+    ISyl = "((" + VowI + "|" + "(" + Cons + VowS + "?" + "))" + Nas + ')'
     Syl = "((" + Cons + VowS + ')' + Nas + ")"
     SylAny = "((" + Cons + VowS + "?" + ')' + Nas + ")"
 
@@ -1134,7 +1134,7 @@ def SchwaFinalWarangCiti(Strng):
 
     Nas = "([" + '|'.join(GM.CrunchList('AyogavahaMap',Target)) + "]?)"
 
-    ISyl = "((" + VowI + "|" + "(" + Cons + VowS + "?" + ")" + Nas + '))'
+    ISyl = "((" + VowI + "|" + "(" + Cons + VowS + "?" + "))" + Nas + ')'
     Syl = "((" + Cons + VowS + ')' + Nas + ")"
     SylAny = "((" + Cons + VowS + "?" + ')' + Nas + ")"
 
-- 
2.43.0


From 66fa888060b9d2c1c1d702165bb895630eea9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 33/51] fix: SchwaFinalGurmukhi takes the addak as a part of
 the word

---
 aksharamukha/PreProcess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 8861412..63f74b3 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1079,6 +1079,10 @@ def RemoveFinal(Strng, Target):
     else:
         Cons2 = '(()?' + Cons + ')'
 
+    if Target == 'Gurmukhi': # addak is a part of the word
+        Char = "(" + Char + "|\u0A71)"
+        Cons2 = '((' + Cons + vir + '|\u0A71)?' + Cons + ')'
+
     if Target == 'Khmer' or Target == 'KhmerLoC':
         ListC ='|'.join(GM.CrunchSymbols(sorted(GM.Consonants, key=len, reverse=True),Target))
         ra = Khmer.ConsonantMap[26]
-- 
2.43.0


From e517bd88ef12d5c301efbefb8d52e5dc7b191879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 34/51] fix: RemoveSchwaHindi keeps the nasal sign of the last
 syllable

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 63f74b3..8b530dd 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1024,7 +1024,7 @@ def RemoveSchwaHindi(Strng, showschwa=False):
         vir2 = '\u0954'
 
     Strng = re.sub(ISyl+Cons+Cons+SylAny+"(?!" + Char + ")", r'\1\8' + vir + r'\9\10', Strng) # bhAratIya --> bhArtIy
-    Strng = re.sub(ISyl+Cons+Syl+SylAny+"(?!" + Char + ")", r'\1\8' + vir + r'\9\15', Strng) # bhAratIya --> bhArtIy
+    Strng = re.sub(ISyl+Cons+Syl+SylAny+"(?!" + Char + ")", r'\1\8' + vir + r'\9\14', Strng) # bhAratIya --> bhArtIy
     Strng = re.sub(ISyl+Cons+Syl+"(?!" + Char + ")", r'\1\8' + vir + r'\9', Strng) # namakIn -> namkIn
 
     Strng = re.sub(ISyl+Cons+"(?!" + Char + ")", r'\1\8' + vir, Strng) # kama -> kam
-- 
2.43.0


From a9ee5dfdaaf6d5794b6d3433af0a25609917b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 35/51] fix: LaoSajhayaOrthography reads the Lao yamakkan that
 LaoSajjhaya writes

---
 aksharamukha/PreProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 8b530dd..02ee8a3 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -989,6 +989,7 @@ def ThaiSajjhayawithA(Strng):
     return Strng
 
 def LaoSajhayaOrthography(Strng):
+    Strng = Strng.replace('\u0ECE', '\u0E4E') # read the Lao Yamakkan as the Thai one
     Strng = Strng.replace('ັງ', 'ັງ຺')
 
     Strng = re.sub('([ເໂໄ])(.๎)([ຍຣລວຨຩສຫຬ])', r'\2\1\3', Strng)
-- 
2.43.0


From 7d76333d3a18b1d8e22c3a1ce8369971f08fe8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 36/51] fix: the MoveRepha options keep all consonants of a
 cluster and both parts of a vowel sign together

---
 aksharamukha/PostProcess.py | 6 +++---
 aksharamukha/PreProcess.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index b62c16e..cca512a 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -1860,7 +1860,7 @@ def KawiMoveRepha(Strng):
     repha = '\U00011F02'
 
     cons = '(' + '|'.join(GM.CrunchSymbols(GM.Consonants + GM.Vowels, tgt)) + ')'
-    vows = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSignsNV, tgt)) + ')'
+    vows = '(' + '|'.join(sorted(GM.CrunchSymbols(GM.VowelSignsNV, tgt), key = len, reverse=True)) + ')'
     vir = '\U00011F42'
 
     Strng = re.sub('(('+cons+')' + '('+ vir + cons +')*'+'(' + vows + ')?)' + repha , repha + r'\1', Strng)
@@ -1928,10 +1928,10 @@ def BalineseJavaneseMoveRepha(Strng, tgt, reph):
     repha = '(' + reph + ')'
 
     cons = '(' + '|'.join(GM.CrunchSymbols(GM.Consonants, tgt)) + ')'
-    vows = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSignsNV, tgt)) + ')'
+    vows = '(' + '|'.join(sorted(GM.CrunchSymbols(GM.VowelSignsNV, tgt), key = len, reverse=True)) + ')'
     vir = GM.CrunchSymbols(GM.virama, tgt)[0]
 
-    Strng = re.sub(repha+'('+cons+')'+'('+ vir + cons +')*'+'(' + vows + ')?', r'\2\4\6\1', Strng)
+    Strng = re.sub(repha+'(('+cons+')'+'('+ vir + cons +')*'+'(' + vows + ')?)', r'\2\1', Strng)
 
     candAnu = '[' + ''.join(GM.CrunchSymbols(GM.CombiningSigns, tgt)[:2]) + ']'
     Strng = re.sub(repha+'(' + candAnu + ')', r'\2\1', Strng)
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 02ee8a3..6a96c19 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -96,13 +96,13 @@ def BalineseJavaneseMoveRepha(Strng, tgt, reph):
     repha = '(' + reph + ')'
 
     cons = '(' + '|'.join(GM.CrunchSymbols(GM.Consonants, tgt)) + ')'
-    vows = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSignsNV, tgt)) + ')'
+    vows = '(' + '|'.join(sorted(GM.CrunchSymbols(GM.VowelSignsNV, tgt), key = len, reverse=True)) + ')'
     vir = GM.CrunchSymbols(GM.virama, tgt)[0]
 
     candAnu = '[' + ''.join(GM.CrunchSymbols(GM.CombiningSigns, tgt)[:2]) + ']'
     Strng = re.sub('(' + candAnu + ')' + repha, r'\2\1', Strng)
 
-    Strng = re.sub('('+cons+')'+'('+ vir + cons +')*'+'(' + vows + ')?'+ repha, r'\7\1\3\5', Strng)
+    Strng = re.sub('(('+cons+')'+'('+ vir + cons +')*'+'(' + vows + ')?)'+ repha, r'\8\1', Strng)
 
     return Strng
 
@@ -125,7 +125,7 @@ def KawiMoveRepha(Strng):
     repha = '\U00011F02'
 
     cons = '(' + '|'.join(GM.CrunchSymbols(GM.Consonants + GM.Vowels, tgt)) + ')'
-    vows = '(' + '|'.join(GM.CrunchSymbols(GM.VowelSignsNV, tgt)) + ')'
+    vows = '(' + '|'.join(sorted(GM.CrunchSymbols(GM.VowelSignsNV, tgt), key = len, reverse=True)) + ')'
     vir = '\U00011F42'
 
     Strng = re.sub(repha + '(('+cons+')' + '('+ vir + cons +')*'+'(' + vows + ')?)', r'\1' + repha, Strng)
-- 
2.43.0


From 237ac505136fe5743b97e5d3806182bfb08b4cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 37/51] fix: the tsa-phru of Tibetan and the letters of IPA are
 read as before the canonical composition of the input

---
 aksharamukha/PreProcess.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 6a96c19..a3f89b5 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1283,6 +1283,12 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
         Strng = unicodedata.normalize('NFC', Strng)
         ## ... which puts an anudatta (below) before the macron or breve (above) of its vowel, such as l̥̄
         Strng = re.sub('\u0331([\u0304\u0306\u0302]+)', r'\1' + '\u0331', Strng)
+        if 'Tibetan' in Source:
+            ## ... and the tsa-phru of a consonant after the vowel sign or halanta
+            Strng = re.sub('([\u0F71-\u0F7D\u0F80\u0F84]+)\u0F39', '\u0F39' + r'\1', Strng)
+        elif Source == 'IPA':
+            ## the letters of IPA are combined with marks that have to stay apart
+            Strng = unicodedata.normalize('NFD', Strng).replace('y\u0307', '\u1E8F')
 
     if Source in GM.pipeScripts:
         if '|' in Strng:
-- 
2.43.0


From 9bda13a9791f659d0eb879e6e9795c57f828c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 38/51] fix: the nukta letters of Soyombo, Lao Pali, Kawi and
 Cham are those of their base letters (charts were off by one)

---
 aksharamukha/ScriptMap/EastIndic/Cham.py    | 2 +-
 aksharamukha/ScriptMap/EastIndic/Kawi.py    | 2 +-
 aksharamukha/ScriptMap/EastIndic/LaoPali.py | 2 +-
 aksharamukha/ScriptMap/EastIndic/Soyombo.py | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aksharamukha/ScriptMap/EastIndic/Cham.py b/aksharamukha/ScriptMap/EastIndic/Cham.py
index 0c39766..6cb3a8a 100644
--- a/aksharamukha/ScriptMap/EastIndic/Cham.py
+++ b/aksharamukha/ScriptMap/EastIndic/Cham.py
@@ -131,7 +131,7 @@ NuktaConsonantMap =  [
                      '\uAA15\u02BD',
                      '\uAA16\u02BD',
                      '\uAA1C\u02BD',
-                     '\uAA25\u02BD'
+                     '\uAA22\u02BD'
                      ]
 
 SinhalaConsonantMap =[
diff --git a/aksharamukha/ScriptMap/EastIndic/Kawi.py b/aksharamukha/ScriptMap/EastIndic/Kawi.py
index 8648491..73c3723 100644
--- a/aksharamukha/ScriptMap/EastIndic/Kawi.py
+++ b/aksharamukha/ScriptMap/EastIndic/Kawi.py
@@ -127,7 +127,7 @@ NuktaConsonantMap =  [
                      '\U00011F14\u02BD',
                      '\U00011F19\u02BD',
                      '\U00011F1E\u02BD',
-                     '\U00011F1E\u02BD',
+                     '\U00011F1F\u02BD',
                      '\U00011F27\u02BD',
                      '\U00011F2B\u02BD'
                      ]
diff --git a/aksharamukha/ScriptMap/EastIndic/LaoPali.py b/aksharamukha/ScriptMap/EastIndic/LaoPali.py
index 8dabb49..47b4ad9 100644
--- a/aksharamukha/ScriptMap/EastIndic/LaoPali.py
+++ b/aksharamukha/ScriptMap/EastIndic/LaoPali.py
@@ -127,8 +127,8 @@ NuktaConsonantMap =  [
                     '\u0E82\u02BD',
                     '\u0E84\u02BD',
                     '\u0E8A\u02BD',
-                    '\u0E90\u02BD',
                     '\u0E91\u02BD',
+                    '\u0E92\u02BD',
                     'ຝ',
                     '\u0EA2',
                      ]
diff --git a/aksharamukha/ScriptMap/EastIndic/Soyombo.py b/aksharamukha/ScriptMap/EastIndic/Soyombo.py
index 6b31896..048e1aa 100644
--- a/aksharamukha/ScriptMap/EastIndic/Soyombo.py
+++ b/aksharamukha/ScriptMap/EastIndic/Soyombo.py
@@ -127,10 +127,10 @@ NuktaConsonantMap =  [
                      '\U00011A5D\u02BD',
                      '\U00011A5E\u02BD',
                      '\U00011A79',
-                     '\U00011A16\u02BD',
                      '\U00011A68\u02BD',
                      '\U00011A69\u02BD',
-                     '\U00011A71\u02BD'
+                     '\U00011A71\u02BD',
+                     '\U00011A7B\u02BD'
                      ]
 
 SinhalaConsonantMap =[
-- 
2.43.0


From 85bc6ec3eb0751aa4e145df48a91e46145b31e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 39/51] =?UTF-8?q?fix:=20SLP1=20has=20no=20nukta=20sign=20(?=
 =?UTF-8?q?Q=20is=20the=20letter=20=E0=A4=A2)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/ScriptMap/Roman/SLP1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ScriptMap/Roman/SLP1.py b/aksharamukha/ScriptMap/Roman/SLP1.py
index ffba148..cbaf8e0 100644
--- a/aksharamukha/ScriptMap/Roman/SLP1.py
+++ b/aksharamukha/ScriptMap/Roman/SLP1.py
@@ -120,7 +120,7 @@ SinhalaConsonantMap =[
                       ]
 
 NuktaMap = [
-           '\u0051'
+           '\u02BD\u02BD'
            ]
 
 OmMap = [
-- 
2.43.0


From 812e47c095347328a035590006d00e5a91fefb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 40/51] fix: Warang Citi joins all consonants of a cluster of
 three

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 75c2f84..22250d2 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2486,7 +2486,7 @@ def FixWarangCiti(Strng, reverse = False):
     ListV = "(" + "|".join(GM.CrunchSymbols(GM.Vowels, 'WarangCiti') + ['\u200D']) + ')'
 
     if not reverse:
-        Strng = re.sub(ListC + ListC, r'\1' + '\u200D' + r'\2', Strng)
+        Strng = re.sub(ListC + '(?=' + ListC + ')', r'\1' + '\u200D', Strng)
 
         # Remove the inherent vowel
         Strng = re.sub(ListC + '(\U000118C1\U000118D9\u02BE)', r'\1' + '\u00BD', Strng)
-- 
2.43.0


From 4f0cd7d29549167e954f18d0681e22e096fc951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 41/51] fix: Tamil Grantha reads e and ai of the letters with a
 dot

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 22250d2..3013bec 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -1054,7 +1054,7 @@ def FixTamilExtended(Strng, reverse=False):
 
 # Move Vowel Signs
 def FixTamilGrantha(Strng,reverse=False):
-    ListC = '|'.join(GM.CrunchSymbols(GM.Consonants, 'TamilGrantha'))
+    ListC = '|'.join(sorted(GM.CrunchSymbols(GM.Consonants, 'TamilGrantha'), key=len, reverse=True))
     ListEAI = '|'.join(TamilGrantha.VowelSignMap[9:11]+TamilGrantha.SouthVowelSignMap[0:1])
     ListOAU = TamilGrantha.VowelSignMap[11:13]+TamilGrantha.SouthVowelSignMap[1:2]
 
-- 
2.43.0


From cd4c3402a55772bcba10a6b194a23f2e6abe5543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 42/51] fix: Ahom reads e with the m sign, and au before a
 letter without vowel

---
 aksharamukha/ConvertFix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 3013bec..12a4871 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3524,11 +3524,11 @@ def FixAhom(Strng, reverse = False):
         anu = Ahom.AyogavahaMap[1]
 
         #reverse closed syllable e
-        Strng = re.sub(anu + '\U00011727' + '(?!\U00011728)', '\U00011726\U00011727\U0001172A', Strng)
+        Strng = re.sub('\U00011726?' + anu + '\U00011727' + '(?!\U00011728)', '\U00011726\U00011727\U0001172A', Strng)
         Strng = re.sub('(\U00011726)(.)('+vir+')', '\U00011726\U00011727'+r'\2\3', Strng)
 
         #rever closed syllable o
-        Strng = re.sub('(\U00011728)(.)('+vir+')', '\U00011726\U00011721'+r'\2\3', Strng)
+        Strng = re.sub('(?<!\U00011727)(\U00011728)(.)('+vir+')', '\U00011726\U00011721'+r'\2\3', Strng)
 
         Strng = Strng.replace(anu + '\U00011728', '\U00011726\U00011721\U0001172A')
 
-- 
2.43.0


From f7c2b65e86bc8837effd91ce137fd390db1078e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 43/51] fix: Itrans text between ## is not normalized either

---
 aksharamukha/PreProcess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index a3f89b5..ae2f81a 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1275,6 +1275,9 @@ def joinVowelConsISO(Strng):
     return joinVowelCons(Strng, 'ISO')
 
 def PreProcess(Strng,Source,Target,postoptions,preoptions):
+    ## Itrans: text between ## is left as it is
+    if Source == 'Itrans' and '##' in Strng:
+        return '##'.join(x if i % 2 else PreProcess(x, Source, Target, postoptions, preoptions) for i, x in enumerate(Strng.split('##')))
     if Source in GM.RomanDiacritic or Source == 'Latn':
         Strng = Strng.lower()
 
-- 
2.43.0


From e6236d53e7f2197cb042f59288539b7d8ac5d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 44/51] fix: Baraha's ~a is another spelling of ~e, not the
 reverse

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index ae2f81a..7f0266f 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1353,7 +1353,7 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     if Source == 'BarahaNorth' or Source == 'BarahaSouth':
         # alternate representations
 
-        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('ou', 'au'), ('K', 'kh'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~e', '~a'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
+        alt_baraha = [('A', 'aa'), ('I', 'ee'), ('U', 'oo'), ('~loo', '~lU'), ('Roo', 'RU'), ('ou', 'au'), ('K', 'kh'), ('G','gh'), ('ch', 'c'), ('Ch', 'C'), ('J','jh'), ('P', 'ph'), ('B', 'bh'), ('w', 'v'), ('sh', 'S'), ('~h', '_h'), ('Y', 'yx'), ('^^', '{}'), ('^', '()'), ('tx', 'rx'), ('zh', 'Lx'), ('~a', '~e'), ('q', '\_'), ('#', "\\'"), ('$', '\\"')]
 
         for alt, norm in alt_baraha:
             Strng = Strng.replace(alt, norm)
-- 
2.43.0


From d2a6296b434548b7c8430fae2e7625b83041ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 45/51] fix: a vowelled Hebrew kaf without dagesh keeps no
 Latin a

---
 aksharamukha/PreProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 7f0266f..2cb31c1 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -553,6 +553,7 @@ def FixSemiticRoman(Strng, Source):
 
         Strng = re.sub('(?<=' + cons_prev + ')' + 'a(?!(ŵ|ŷ|\u0304|\u032E))', '', Strng)
         Strng = re.sub('(?<=ḧ)' + 'a(?!(ŵ|ŷ|\u0304|\u032E))', '', Strng)
+        Strng = re.sub('(?<=ḵ)' + 'a(?!(ŵ|ŷ|\u0304|\u032E))', '', Strng)
 
         ## Hamza with vowels
         if 'Arab' in Source:
-- 
2.43.0


From a2c2c5b7b84aa9307e7fb7e34586cef0dfce8fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 46/51] fix: text of Semitic scripts is romanized in one pass

---
 aksharamukha/Convert.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index c6ec3ee..83cbc74 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -269,15 +269,18 @@ def convertScript(Strng,Source,Target):
 
         # special case just for roman semitic
         if Source == 'RomanSemitic':
-            unasp = ['k', 'g', 'c', 'j', 't', 'd', 'p', 'b', 'ɽ', 'ʈ', 'ɖ', 'r']
+            unasp = ['k', 'g', 'č', 'j', 't', 'd', 'p', 'b', 'ɽ', 'ʈ', 'ɖ', 'r']
             charPairsH = [(x, y) for x, y in charPairs if 'ʰ' in x]
             charPairsNotH = [(x, y) for x, y in charPairs if 'ʰ' not in x]
             charPairs = charPairsNotH + charPairsH
-            for x, y in charPairs:
+            # what is already replaced is kept aside, as it may have the letters of the source
+            for i, (x, y) in enumerate(charPairs):
                 if x in unasp:
-                    Strng = re.sub(x + '(?!(ʰ|\u0324))', y, Strng)
+                    Strng = re.sub(x + '(?!(ʰ|\u0324))', chr(0xF0000 + i), Strng)
                 else:
-                    Strng = Strng.replace(x,y)
+                    Strng = Strng.replace(x, chr(0xF0000 + i))
+            for i, (x, y) in enumerate(charPairs):
+                Strng = Strng.replace(chr(0xF0000 + i), y)
         # for all other transformations
         else:
             # Perform replacement sequentially for each character group
-- 
2.43.0


From 8b826239adf15d51fa01a5a605d2f1ef59fd1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 47/51] fix: only Semitic targets are fixed as Semitic output

---
 aksharamukha/ConvertFix.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 12a4871..bf34e79 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -354,11 +354,13 @@ def PostFixRomanOutput(Strng,Source,Target):
 
 def FixSemiticOutput(Strng,Source,Target):
     Strng = Strng.replace('\u02DE', '') ## dummy
-    try:
-        Strng = globals()["Fix"+Target.replace('-','_')](Strng, Source)
-    except KeyError:
-        pass
-        #print("Fix"+Target+" doesn't exist")
+    # the Fix functions of the other scripts are not for text in Latn
+    if Target in GM.SemiticScripts:
+        try:
+            Strng = globals()["Fix"+Target.replace('-','_')](Strng, Source)
+        except KeyError:
+            pass
+            #print("Fix"+Target+" doesn't exist")
 
     return Strng
 
-- 
2.43.0


From 241c3570f01813d29a3dce77501b3086510c8bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 48/51] fix: Takri short e and o are spellings apart from e and
 o

---
 aksharamukha/ScriptMap/MainIndic/Takri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/ScriptMap/MainIndic/Takri.py b/aksharamukha/ScriptMap/MainIndic/Takri.py
index cb91760..200acf0 100644
--- a/aksharamukha/ScriptMap/MainIndic/Takri.py
+++ b/aksharamukha/ScriptMap/MainIndic/Takri.py
@@ -20,8 +20,8 @@ VowelMap =  [
             ]
 
 SouthVowelMap = [
-                '\U00011686',
-                '\U00011688',
+                '\U00011686\u02BD',
+                '\U00011688\u02BD',
                 ]
 
 ModernVowelMap = [
-- 
2.43.0


From 22a76e4d34b96461a6292615a5535e9c4ebdc38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 49/51] fix: i + y + vowel and u + w + vowel of Semitic scripts
 are not long i, u

---
 aksharamukha/PreProcess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 2cb31c1..b0f576d 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -548,6 +548,10 @@ def FixSemiticRoman(Strng, Source):
     ## Add scripts with vowels here
     if "Arab" in Source or Source == 'Latn' or Source == "Hebr" or Source == "Thaa" or Source == 'Type':
         basic_vowels = '(' + '|'.join(['a', 'ā', 'i', 'ī', 'u', 'ū', 'ē', 'ō', 'e', 'o', '#', vir]) + ')'
+        # i + y + vowel, u + w + vowel are not long i, u
+        if 'Arab' in Source or Source == 'Hebr':
+            Strng = re.sub('ī(\u0302?)(?=[aāiīuūeēoō](?!\u0302))', lambda m: ('î' if m.group(1) else 'i') + 'y', Strng)
+            Strng = re.sub('ū(\u0302?)(?=[aāiīuūeēoō](?!\u0302))', lambda m: ('û' if m.group(1) else 'u') + 'w', Strng)
         Strng = re.sub('(ŵ)(?=' + basic_vowels + ')', "w", Strng)
         Strng = re.sub('(ŷ)(?=' + basic_vowels + ')', "y", Strng)
 
-- 
2.43.0


From 5be0b49e33d455fa159a7a5752a717d257ffab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 50/51] fix: canonically equivalent orders of Semitic points
 read alike

---
 aksharamukha/PreProcess.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index b0f576d..c13f204 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -473,6 +473,18 @@ def AlephMaterLectionis(Strng, target='semitic'):
 
     return Strng
 
+# One order of points for canonically equivalent Semitic text: letters with hamza or madda as one character,
+# then the marks that tell letters apart (shadda, dagesh, the dots of shin and of Syriac letters), then the vowels
+def OrderPoints(Strng):
+    Strng = re.sub('[\u0615\u0621-\u0655\u0670-\u06D3]+', lambda m: unicodedata.normalize('NFC', m.group()), Strng)
+    Strng = re.sub('([\u064B-\u0652\u0670]+)\u0615', '\u0615' + r'\1', Strng)
+    Strng = re.sub('([\u064B-\u0650\u0652\u0670]+)\u0651', '\u0651' + r'\1', Strng)
+    Strng = re.sub('([\u05B0-\u05BB\u05C7]+)\u05BC', '\u05BC' + r'\1', Strng)
+    Strng = re.sub('([\u05B0-\u05BD\u05BF\u05C7]+)([\u05C1\u05C2])', r'\2\1', Strng)
+    Strng = re.sub('([\u0730-\u073F]+)([\u0741\u0742\u0323\u0330]+)', r'\2\1', Strng)
+
+    return Strng
+
 # Indic Target
 def FixSemiticRoman(Strng, Source):
     vir = '\u033D'
@@ -1298,6 +1310,9 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
             ## the letters of IPA are combined with marks that have to stay apart
             Strng = unicodedata.normalize('NFD', Strng).replace('y\u0307', '\u1E8F')
 
+    if Source in GM.SemiticScripts or Source in ['Urdu', 'Shahmukhi', 'Hebrew']:
+        Strng = OrderPoints(Strng)
+
     if Source in GM.pipeScripts:
         if '|' in Strng:
             Strng = Strng.replace(".", "●")
-- 
2.43.0


From 499d788606153b5e595ee872196e76b58319a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 51/51] fix: ayin keeps apart from the sukun, diphthong or
 vowel letter before it

---
 aksharamukha/PreProcess.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index c13f204..13f991c 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -501,6 +501,8 @@ def FixSemiticRoman(Strng, Source):
         AyinAlephInitial = [('ʾa', 'ʾ'),('ʾā', 'ā̂'), ('ʾi', 'î'), ('ʾī', 'ī̂'), ('ʾu', 'û'), ('ʾū', 'ū̂'), ('ʾe', 'ê'), ('ʾē', 'ē̂'),\
                              ('ʾo', 'ô'), ('ʾō', 'ō̂')]
 
+        Strng = re.sub('ʾa(?=ʾ|[āīūēō]\u0302|[âêîôû])', 'â', Strng)
+
         for x, y in AyinAlephInitial:
             Strng = Strng.replace(x, y)
 
@@ -564,8 +566,8 @@ def FixSemiticRoman(Strng, Source):
         if 'Arab' in Source or Source == 'Hebr':
             Strng = re.sub('ī(\u0302?)(?=[aāiīuūeēoō](?!\u0302))', lambda m: ('î' if m.group(1) else 'i') + 'y', Strng)
             Strng = re.sub('ū(\u0302?)(?=[aāiīuūeēoō](?!\u0302))', lambda m: ('û' if m.group(1) else 'u') + 'w', Strng)
-        Strng = re.sub('(ŵ)(?=' + basic_vowels + ')', "w", Strng)
-        Strng = re.sub('(ŷ)(?=' + basic_vowels + ')', "y", Strng)
+        Strng = re.sub('(ŵ)(?=' + basic_vowels + '(?!\u0302))', "w", Strng)
+        Strng = re.sub('(ŷ)(?=' + basic_vowels + '(?!\u0302))', "y", Strng)
 
         Strng = re.sub('(?<=' + cons_prev + ')' + 'a(?!(ŵ|ŷ|\u0304|\u032E))', '', Strng)
         Strng = re.sub('(?<=ḧ)' + 'a(?!(ŵ|ŷ|\u0304|\u032E))', '', Strng)
@@ -592,11 +594,14 @@ def FixSemiticRoman(Strng, Source):
                         ('ʾQā', 'ā̂Q'), ('ʾQi', 'îQ'), ('ʾQī', 'ī̂Q'), ('ʾQu', 'ûQ'), ('ʾQū', 'ū̂Q'), ('ʾQe', 'êQ'), ('ʾQē', 'ē̂Q'),\
                              ('ʾQo', 'ôQ'), ('ʾQō', 'ō̂Q'), ('ⁿ', 'n\u033D'), ('ʾā', 'ā̂')]
 
+    # aleph or ayin, and the next one with its long vowel
+    Strng = re.sub('([ʾʿ])(?=[āīūēō]\u0302)', lambda m: 'â' + 'Q' * (m.group() == 'ʿ'), Strng)
+
     for s, i in SemiticIndic:
         Strng = Strng.replace(s, i)
 
     if 'Arab' in Source:
-        Strng = re.sub('(\u033D)([iuā])', r'\2', Strng)
+        Strng = re.sub('(\u033D)([iu]|ā(?!\u0302))', r'\2', Strng)
         Strng = re.sub('(\u033D)([a])', '', Strng)
 
     ## Lone Aliph to Nukta
-- 
2.43.0

