"""How the letters of the scripts outside the main group read back in Devanagari (spec/readback.json): homographs read as one letter."""
import json, os
from . import model
from .phon import *

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'readback.json')
T = {}


def load():
    T.clear()
    if os.path.exists(FILE):
        with open(FILE, encoding='utf8') as f:
            T.update(json.load(f))


load()


OM = (10, 12, 13)
NOVIR = ('Mahajani', 'Multani')


def ok(s, w):
    """Every letter of the word reads as one letter, and no two of them together as another."""
    m = T.get(s)
    if m is None or isinstance(w, str):
        return False
    for i, (on, v, k) in enumerate(w):
        if v == -2 or k not in m['mark'] or any(c not in m['cons'] for c in on) or str(v) not in (m['sign'] if on else m['vow']):
            return False
        if not on and k in MARKS[:2] and (m['vow'][str(v)] in OM or s == 'SylotiNagri') and (len(w) == 1 or s == 'Pallava'):
            return False    # reads as Om
        c = [m['cons'][x] for x in on]
        if s in NOVIR and (len(on) > 1 or v < 0):
            return False    # no sign for a missing vowel
        for a, b in zip(c, c[1:]):
            if s in ('Tibetan', 'TibetanLoC') and b == 'ह' or s == 'Khojki' and (a, b) == ('स', 'श') or \
                    s in ('Shan', 'ShanLoC') and ((a, b) == ('स', 'य') or a == 'श'):
                return False    # digraph spellings of another letter
        if s in ('Shan', 'ShanLoC') and i and w[i - 1][1] == 5 and 'व' in c:
            return False
        if s == 'DivesAkuru' and c[-1:] in (['र'], ['ल']) and v in (4, 5):
            return False
        if s == 'SylotiNagri' and not on and i:
            return False
    return True


def canon(s, w):
    """The Devanagari text the spelling of the word reads as."""
    m = T[s]
    return model.render('Devanagari', [([m['cons'][c] for c in on], (m['sign'] if on else m['vow'])[str(v)], m['mark'][k]) for on, v, k in w])
