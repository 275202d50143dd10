"""Forward model: Devanagari words in Japanese kana."""
import json, os
from .phon import *

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'kana.json')
_t = {}
SMALL = {0: 'ゃ', 1: 'ゃあ', 2: 'ぃ', 3: 'ぃい', 4: 'ゅ', 5: 'ゅう', 10: 'ぇえ', 11: 'ゃい', 12: 'ょお', 13: 'ゃう'}
LONG = {1: 'あ', 3: 'い', 5: 'う', 9: 'い', 7: 'い', 10: 'え', 12: 'お'}
H_PLAIN = {0: 'は', 1: 'は', 2: 'ひ', 3: 'ひ', 4: 'ほぅ', 5: 'ほぅ', 6: 'ひ', 7: 'ひ', 8: 'ひ', 9: 'ひ', 10: 'へ', 11: 'ひ', 12: 'ほ', 13: 'ほぅ'}


def table():
    if not _t:
        with open(FILE, encoding='utf8') as f:
            _t.update(json.load(f))
    return _t


def syllable(T, on, v):
    """kana of the syllable"""
    if not on:
        return T['vow'][v]
    on = [T['rep'][c] for c in on]
    o = ''
    for a, b in zip(on, on[1:]):
        p = T['pre'][a][b]
        if p is None:                                   # small ya
            return o + T['syl'][a][2][0] + SMALL[v]
        o += p
    return o + T['syl'][on[-1]][v if v >= 0 else 14]


def render(s, w, nat=False):
    T = table()['nat' if nat else 'plain']
    o = ''
    for on, v, m in w:
        k = syllable(T, on, v)
        if s == 'Katakana' and v in LONG and k[-1] == LONG[v]:
            k = k[:-1] + 'ー'
        o += k
        if m in ('ँ', 'ं'):
            o += 'ん'
        elif m:
            h = H_PLAIN[v]
            o += 'ふ' if nat and h == 'ほぅ' else h
    return ''.join(chr(ord(c) + 0x60) if s == 'Katakana' and 'ぁ' <= c <= 'ゖ' else c for c in o)


def ok(w, nat=False):
    T = table()['nat' if nat else 'plain']
    for i, (on, v, m) in enumerate(w):
        if i and not on:
            return False
        if len(on) > 2 or len(on) == 2 and (on[1] == 'ह' or v < 0):
            return False
        if len(on) == 2:
            a, b = [T['rep'][c] for c in on]
            if b == 'य' and (a not in 'कगपबमर' or v not in (0, 1, 4, 5, 11, 12, 13)) or T['pre'][a][b] is None and b != 'य' or 6 <= v <= 9:
                return False
            if a + b in ('जज', 'टस', NUKTA[6] * 2) and v in (2, 3, 4, 5, 10):
                return False
        if i and on and on[-1] in 'य\u095f' and v in (2, 3, 10):
            return False
        if on and 6 <= v <= 9 and T['rep'][on[-1]] in 'ञरल':
            return False
        nxt = w[i + 1][0][0] if i + 1 < len(w) and w[i + 1][0] else ''
        if m in ('ँ', 'ं') and nxt == 'म' and len(w[i + 1][0]) > 1:
            return False
        if m in ('ँ', 'ं') and nxt in tuple('य\u095fञहङणन\u0929'):
            return False
    return True
