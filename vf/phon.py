"""Abstract phonemic letters (named after their Devanagari letter) and the Devanagari reference notation."""
VOWELS = ['अ', 'आ', 'इ', 'ई', 'उ', 'ऊ', 'ऋ', 'ॠ', 'ऌ', 'ॡ', 'ए', 'ऐ', 'ओ', 'औ', 'ऎ', 'ऒ', 'ऍ', 'ऑ']
SIGNS = ['', 'ा', 'ि', 'ी', 'ु', 'ू', 'ृ', 'ॄ', 'ॢ', 'ॣ', 'े', 'ै', 'ो', 'ौ', 'ॆ', 'ॊ', 'ॅ', 'ॉ']
CONS = [chr(c) for c in range(0x915, 0x93a) if c not in (0x929, 0x931, 0x934, 0x933)] + ['ळ', 'ऴ', 'ऱ', 'ऩ']
NUKTA = [chr(c) for c in range(0x958, 0x960)]          # precomposed क़ ख़ ग़ ज़ ड़ ढ़ फ़ य़
NUKTA_BASE = dict(zip(NUKTA, 'कखगजडढफय'))
MARKS = ['ँ', 'ं', 'ः']
VIR = '्'
DIGITS = [chr(0x966 + i) for i in range(10)]
AVAGRAHA, DANDA, DDANDA = 'ऽ', '।', '॥'
